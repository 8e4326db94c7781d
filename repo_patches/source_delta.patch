From c2d67fb1d6526a220d5e6fbdce837325a9006fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:30 +0000
Subject: [PATCH 01/36] fix: lexer keeps the last character at the end of input

A word that ends with the file lost its last character and the lexer then
returned empty identifiers for ever (or indexed past the end for '?' and ':').
---
 src/lexical_analyzer/tokenizer.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 605f494..d550800 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -183,7 +183,6 @@ impl<'a> LexicalAnalyzer<'a> {
     // get next lexeme and new cursor position (to commit peek)
     fn peek_lexeme(&self, init_cur_pos: usize) -> Result<(&str, usize), LexicalError> {
         let mut cursor_pos = init_cur_pos;
-        let mut next_ch = self.program[cursor_pos] as char;
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
@@ -199,13 +198,10 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
             }
         };
-        while is_valid_character(next_ch) {
-            if cursor_pos < self.program.len() - 1 {
-                cursor_pos += 1;
-                next_ch = self.program[cursor_pos] as char;
-            } else {
-                break;
-            }
+        while cursor_pos < self.program.len()
+            && is_valid_character(self.program[cursor_pos] as char)
+        {
+            cursor_pos += 1;
         }
         if is_invalid {
             return Err(LexicalError {
-- 
2.43.0


From b01dfcd0edb57836fe39da19136202714272ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:15 +0000
Subject: [PATCH 02/36] fix: a comment may end the file, follow a word
 directly, and repeat

A ';' comment without a final newline indexed past the end of the input, a
comment glued to an identifier was an invalid identifier, and every comment
line cost a stack frame, so a long block of comments overflowed the stack.
---
 src/lexical_analyzer/tokenizer.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index d550800..ab3fa07 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -119,15 +119,6 @@ impl<'a> LexicalAnalyzer<'a> {
                         }),
                     }
                 }
-                // Comment
-                ';' => {
-                    let mut current = self.program[self.cursor.get()] as char;
-                    while current != '\n' {
-                        self.cursor.set(self.cursor.get() + 1);
-                        current = self.program[self.cursor.get()] as char;
-                    }
-                    return self.parse(peek);
-                }
                 // Other
                 _ => {
                     let mut init_cur_pos = self.cursor.get() - 1;
@@ -186,7 +177,7 @@ impl<'a> LexicalAnalyzer<'a> {
         let mut is_invalid = false;
         let mut is_valid_character = |c| match c {
             '_' | '-' => true,
-            ')' | '(' => false,
+            ')' | '(' | ';' => false,
             _ => {
                 if LexicalAnalyzer::is_whitespace(&c) {
                     false
@@ -230,6 +221,15 @@ impl<'a> LexicalAnalyzer<'a> {
     fn skip_whitespaces(&self) {
         while self.cursor.get() != self.program.len() {
             let current = self.program[self.cursor.get()] as char;
+            if current == ';' {
+                // a comment extends to the end of its line (or of the file)
+                while self.cursor.get() != self.program.len()
+                    && self.program[self.cursor.get()] != b'\n'
+                {
+                    self.cursor.set(self.cursor.get() + 1);
+                }
+                continue;
+            }
             if !LexicalAnalyzer::is_whitespace(&current) {
                 break;
             } else if current == '\n' {
-- 
2.43.0


From 2a3748fc8060bbe74f2e820fe63fa2cd2deb3920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 03/36] fix: a word that is not valid UTF-8 is an invalid
 identifier, not a panic

---
 src/lexical_analyzer/tokenizer.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index ab3fa07..92739da 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -194,19 +194,14 @@ impl<'a> LexicalAnalyzer<'a> {
         {
             cursor_pos += 1;
         }
-        if is_invalid {
-            return Err(LexicalError {
+        match from_utf8(&self.program[init_cur_pos..cursor_pos]) {
+            Ok(lexeme) if !is_invalid => Ok((lexeme, cursor_pos)),
+            _ => Err(LexicalError {
                 error_type: LexicalErrorType::InvalidIdentifier,
-                lexeme: from_utf8(&self.program[init_cur_pos..cursor_pos])
-                    .unwrap()
+                lexeme: String::from_utf8_lossy(&self.program[init_cur_pos..cursor_pos])
                     .to_string(),
                 position: self.last_token_pos.get(),
-            });
-        } else {
-            return Ok((
-                from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap(),
-                cursor_pos,
-            ));
+            }),
         }
     }
 
-- 
2.43.0


From b097ece04e5b1dd5bdb3ab040738f55e88cff486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 04/36] fix: a '?' without a name is an invalid identifier

It was read as a variable with an empty name.
---
 src/lexical_analyzer/tokenizer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 92739da..ff1e84e 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -58,6 +58,13 @@ impl<'a> LexicalAnalyzer<'a> {
                         init_cur_pos += 1;
                     }
                     let (var_name, new_cur_pos) = self.peek_lexeme(init_cur_pos)?;
+                    if var_name.is_empty() {
+                        return Err(LexicalError {
+                            error_type: LexicalErrorType::InvalidIdentifier,
+                            lexeme: "?".to_string(),
+                            position: self.last_token_pos.get(),
+                        });
+                    }
                     if !peek {
                         self.cursor.set(new_cur_pos);
                     }
-- 
2.43.0


From 5518ddf799bb30065ad140ab97fa9606d0d4b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:13 +0000
Subject: [PATCH 05/36] fix: looking ahead at '<=' and '>=' sees the same token
 as reading it

---
 src/lexical_analyzer/tokenizer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index ff1e84e..fd76689 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -296,8 +296,11 @@ impl<'a> LexicalAnalyzer<'a> {
     }
 
     fn ordering_type(&self, c: &char, peek: bool) -> OperationType {
+        // when peeking, the cursor still points at the operator itself
+        let next_pos = if peek { self.cursor.get() + 1 } else { self.cursor.get() };
+        let next_char = self.program.get(next_pos).map(|c| *c as char);
         match c {
-            '<' => match self.peek_next_char() {
+            '<' => match next_char {
                 Some('=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
@@ -306,7 +309,7 @@ impl<'a> LexicalAnalyzer<'a> {
                 }
                 _ => OperationType::LessThan,
             },
-            '>' => match self.peek_next_char() {
+            '>' => match next_char {
                 Some('=') => {
                     if !peek {
                         self.cursor.set(self.cursor.get() + 1);
-- 
2.43.0


From 625837222844d912f6600c83c70ae77a0a05a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:31 +0000
Subject: [PATCH 06/36] fix: recognise the declared requirement
 :probabilistic-effects

---
 src/lexical_analyzer/tokenizer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index fd76689..4824615 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -95,6 +95,9 @@ impl<'a> LexicalAnalyzer<'a> {
                         "universal-preconditions" => {
                             Ok(Token::Requirement(RequirementType::UniversalPreconditions))
                         }
+                        "probabilistic-effects" => {
+                            Ok(Token::Requirement(RequirementType::ProbabilisticEffects))
+                        }
                         // Keywords
                         "requirements" => Ok(Token::Keyword(KeywordName::Requirements)),
                         "objects" => Ok(Token::Keyword(KeywordName::Objects)),
-- 
2.43.0


From 41578b92acd330a7b534aae01ca716c66a3bd41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:22 +0000
Subject: [PATCH 07/36] fix: a real number needs digits after its '.' and a
 finite value

InvalidRealNumber says so, but was never reported: '1.' was read as 1, and a
number too large for f64 became infinity and was written to JSON as null.
---
 src/lexical_analyzer/tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexical_analyzer/tokenizer.rs b/src/lexical_analyzer/tokenizer.rs
index 4824615..3842acb 100644
--- a/src/lexical_analyzer/tokenizer.rs
+++ b/src/lexical_analyzer/tokenizer.rs
@@ -263,8 +263,10 @@ impl<'a> LexicalAnalyzer<'a> {
         let lexeme = from_utf8(&self.program[init_cur_pos..cursor_pos]).unwrap();
         if seen_dot {
             match lexeme.parse::<f64>() {
-                Ok(value) => Ok((NumberType::Real(value), cursor_pos)),
-                Err(_) => Err(LexicalError {
+                Ok(value) if value.is_finite() && !lexeme.ends_with('.') => {
+                    Ok((NumberType::Real(value), cursor_pos))
+                }
+                _ => Err(LexicalError {
                     error_type: LexicalErrorType::InvalidRealNumber,
                     lexeme: lexeme.to_string(),
                     position: self.last_token_pos.get(),
-- 
2.43.0


From 2383d19ed67647b247617972b6b53fbb355bb369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:03 +0000
Subject: [PATCH 08/36] fix: a stray token between problem sections is a syntax
 error, not a panic

---
 src/syntactic_analyzer/problem_parser/router.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index 9e941c9..e36a57f 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -66,8 +66,13 @@ impl <'a> Parser<'a> {
                 Token::EOF | Token::Punctuator(PunctuationType::RParentheses) => {
                     return Ok(syntax_tree);
                 }
-                err => {
-                    panic!("unexpected token {:?}", err)
+                token => {
+                    let error = SyntacticError {
+                        expected: format!("either ')' to close the definition of {}, or '(' to start defining new components", meta_data.problem_name),
+                        found: token.to_string(),
+                        position: self.tokenizer.get_last_token_position(),
+                    };
+                    return Err(ParsingError::Syntactic(error));
                 }
             }
         }
-- 
2.43.0


From 78eccf1d00fb441685fd2ce55b5fa8a615286c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 09/36] fix: consume the ')' that closes the goal

It was taken for the end of the problem, and everything after the goal was
silently dropped.
---
 .../problem_parser/router.rs                  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index e36a57f..b79fd90 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -44,8 +44,23 @@ impl <'a> Parser<'a> {
                         }
                         // goal state (optional)
                         Token::Keyword(KeywordName::Goal) => {
-                            let goal = self.parse_formula()?;
-                            syntax_tree.add_goal(goal)
+                            let goal = match self.tokenizer.lookahead()? {
+                                Token::Punctuator(PunctuationType::RParentheses) => Formula::Empty,
+                                _ => self.parse_formula()?,
+                            };
+                            match self.tokenizer.get_token()? {
+                                Token::Punctuator(PunctuationType::RParentheses) => {
+                                    syntax_tree.add_goal(goal)
+                                }
+                                token => {
+                                    let error = SyntacticError {
+                                        expected: "')' to close the goal".to_string(),
+                                        found: token.to_string(),
+                                        position: self.tokenizer.get_last_token_position(),
+                                    };
+                                    return Err(ParsingError::Syntactic(error));
+                                }
+                            }
                         }
                         // initial state
                         Token::Keyword(KeywordName::Init) => {
-- 
2.43.0


From 3de60984c47443e6f8645e33500cd441e360e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:44 +0000
Subject: [PATCH 10/36] fix: a ')' is not an empty formula

'(not ))', ':precondition )' and the like were accepted although parentheses
do not balance, and '()' inside and/or/oneof ended the list early, so that the
rest of the formula was parsed as something else.
---
 .../domain_parser/formula_parser.rs           | 45 +++++++------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 64788d3..539b34d 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -3,9 +3,6 @@ use super::*;
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
         match self.tokenizer.get_token()? {
-            Token::Punctuator(PunctuationType::RParentheses) => {
-                return Ok(Formula::Empty);
-            }
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
                     // Not Operation
@@ -27,39 +24,15 @@ impl<'a> Parser<'a> {
                     }
                     // And Connector
                     Token::Operator(OperationType::And) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::And(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::And(self.parse_formulas()?));
                     }
                     // Xor Connector
                     Token::Operator(OperationType::Xor) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Xor(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Xor(self.parse_formulas()?));
                     }
                     // Or Connector
                     Token::Operator(OperationType::Or) => {
-                        let mut expressions = vec![];
-                        loop {
-                            let formula = self.parse_formula()?;
-                            if let Formula::Empty = formula {
-                                return Ok(Formula::Or(expressions));
-                            } else {
-                                expressions.push(Box::new(formula));
-                            }
-                        }
+                        return Ok(Formula::Or(self.parse_formulas()?));
                     }
                     // Equality
                     Token::Operator(OperationType::Equal) => match self.tokenizer.get_token()? {
@@ -216,4 +189,16 @@ impl<'a> Parser<'a> {
             }
         }
     }
+
+    // parses formulas up to the ')' that closes their connector
+    fn parse_formulas(&'a self) -> Result<Vec<Box<Formula<'a>>>, ParsingError> {
+        let mut expressions = vec![];
+        loop {
+            if let Token::Punctuator(PunctuationType::RParentheses) = self.tokenizer.lookahead()? {
+                let _ = self.tokenizer.get_token()?;
+                return Ok(expressions);
+            }
+            expressions.push(Box::new(self.parse_formula()?));
+        }
+    }
 }
-- 
2.43.0


From 150f0aa7911d46df35f4d1080b69aaf3b00e29a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:40 +0000
Subject: [PATCH 11/36] fix: consume the ')' of every task network

After an empty network, and after :ordered-subtasks with :constraints, the
closing ')' was left over and taken for the end of the whole document, so the
declarations after it were silently dropped.
---
 .../problem_parser/init_tn_parser.rs          | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 2c0119b..7d29a4c 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -32,6 +32,7 @@ impl<'a> Parser<'a> {
                 }
                 // empty init tn
                 Token::Punctuator(PunctuationType::RParentheses) => {
+                    let _ = self.tokenizer.get_token()?;
                     return Ok(InitialTaskNetwork {
                         parameters: None,
                         tn: HTN {
@@ -61,6 +62,7 @@ impl<'a> Parser<'a> {
         // check if it is an empty task network
         match self.tokenizer.lookahead()? {
             Token::Punctuator(PunctuationType::RParentheses) => {
+                let _ = self.tokenizer.get_token()?;
                 return Ok(HTN {
                     subtasks,
                     ordering_pos,
@@ -197,12 +199,25 @@ impl<'a> Parser<'a> {
                 match self.tokenizer.get_token()? {
                     Token::Keyword(KeywordName::Constraints) => {
                         constraints = Some(self.parse_constraints()?);
-                        return Ok(HTN {
-                            subtasks,
-                            ordering_pos,
-                            orderings: TaskOrdering::Total,
-                            constraints,
-                        });
+                        match self.tokenizer.get_token()? {
+                            Token::Punctuator(PunctuationType::RParentheses) => {
+                                return Ok(HTN {
+                                    subtasks,
+                                    ordering_pos,
+                                    orderings: TaskOrdering::Total,
+                                    constraints,
+                                });
+                            }
+                            token => {
+                                let error = SyntacticError {
+                                    expected: "closing ')' after task network definition"
+                                        .to_string(),
+                                    found: token.to_string(),
+                                    position: self.tokenizer.get_last_token_position(),
+                                };
+                                return Err(ParsingError::Syntactic(error));
+                            }
+                        }
                     }
                     Token::Punctuator(PunctuationType::RParentheses) => {
                         return Ok(HTN {
-- 
2.43.0


From 1a35657a562fd0832fdc0fff77626119ae544c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 12/36] fix: a second :init or :constraints block adds to the
 first

It replaced the facts and constraints read before. (Repeated :ordering,
:objects, :predicates etc. already accumulate.)
---
 src/syntactic_analyzer/problem_parser/init_tn_parser.rs | 3 ++-
 src/syntactic_analyzer/syntax_tree/problem.rs           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
index 7d29a4c..ee2768d 100644
--- a/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/init_tn_parser.rs
@@ -173,7 +173,8 @@ impl<'a> Parser<'a> {
                             }
                         }
                         Token::Keyword(KeywordName::Constraints) => {
-                            constraints = Some(self.parse_constraints()?);
+                            let declared = self.parse_constraints()?;
+                            constraints.get_or_insert_with(Vec::new).extend(declared);
                         }
                         Token::Punctuator(PunctuationType::RParentheses) => {
                             return Ok(HTN {
diff --git a/src/syntactic_analyzer/syntax_tree/problem.rs b/src/syntactic_analyzer/syntax_tree/problem.rs
index 3959789..597f13b 100644
--- a/src/syntactic_analyzer/syntax_tree/problem.rs
+++ b/src/syntactic_analyzer/syntax_tree/problem.rs
@@ -32,7 +32,7 @@ impl <'a> ProblemAST<'a> {
         self.init_tn = Some(tn);
     }
     pub fn add_init_state(&mut self, state: Vec<Predicate<'a>>) {
-        self.init_state = state;
+        self.init_state.extend(state);
     }
     pub fn add_goal(&mut self, goal: Formula<'a>) {
         self.goal = Some(goal);
-- 
2.43.0


From 8a36d8c81a4beebf3ec4c99e2f007a8d89d97785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:18 +0000
Subject: [PATCH 13/36] fix: reject a second initial task network or goal

The first one was silently thrown away and never checked.
---
 .../problem_parser/router.rs                  | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/syntactic_analyzer/problem_parser/router.rs b/src/syntactic_analyzer/problem_parser/router.rs
index b79fd90..5a02d4f 100644
--- a/src/syntactic_analyzer/problem_parser/router.rs
+++ b/src/syntactic_analyzer/problem_parser/router.rs
@@ -37,6 +37,25 @@ impl <'a> Parser<'a> {
                                 }
                             }
                         }
+                        // a problem has one initial task network and one goal
+                        token @ Token::Keyword(KeywordName::HTN)
+                            if syntax_tree.init_tn.is_some() =>
+                        {
+                            let error = SyntacticError {
+                                expected: "a single initial task network".to_string(),
+                                found: token.to_string(),
+                                position: self.tokenizer.get_last_token_position(),
+                            };
+                            return Err(ParsingError::Syntactic(error));
+                        }
+                        token @ Token::Keyword(KeywordName::Goal) if syntax_tree.goal.is_some() => {
+                            let error = SyntacticError {
+                                expected: "a single goal".to_string(),
+                                found: token.to_string(),
+                                position: self.tokenizer.get_last_token_position(),
+                            };
+                            return Err(ParsingError::Syntactic(error));
+                        }
                         // initial task network declaration
                         Token::Keyword(KeywordName::HTN) => {
                             let init_tn = self.parse_initial_tn()?;
-- 
2.43.0


From 23f97b03a646ca9c7c840b8613800c3885430c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:33 +0000
Subject: [PATCH 14/36] fix: reject text after the end of the definition

Whatever followed the ')' that closes the domain or problem was ignored, so a
surplus ')' in the middle of a file silently dropped the sections after it.
Surplus ')' at the very end stay accepted, existing files have them.
---
 src/syntactic_analyzer/parser.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/syntactic_analyzer/parser.rs b/src/syntactic_analyzer/parser.rs
index 4d8fb94..a397a83 100644
--- a/src/syntactic_analyzer/parser.rs
+++ b/src/syntactic_analyzer/parser.rs
@@ -18,11 +18,15 @@ impl<'a> Parser<'a> {
                 match self.parse_document_type()? {
                     // Domain Definition
                     DefinitionType::Domain(domain_name) => {
-                        Ok(self.parse_domain(domain_name)?.into())
+                        let domain = self.parse_domain(domain_name)?;
+                        self.parse_end_of_file()?;
+                        Ok(domain.into())
                     }
                     // Problem Definition
                     DefinitionType::Problem(problem_definition) => {
-                        Ok(self.parse_problem(problem_definition)?.into())
+                        let problem = self.parse_problem(problem_definition)?;
+                        self.parse_end_of_file()?;
+                        Ok(problem.into())
                     }
                 }
             }
@@ -37,6 +41,24 @@ impl<'a> Parser<'a> {
         }
     }
 
+    // nothing but surplus closing parentheses may follow the definition
+    fn parse_end_of_file(&self) -> Result<(), ParsingError> {
+        loop {
+            match self.tokenizer.get_token()? {
+                Token::EOF => return Ok(()),
+                Token::Punctuator(PunctuationType::RParentheses) => {}
+                token => {
+                    let error = SyntacticError {
+                        expected: "end of the file".to_string(),
+                        found: token.to_string(),
+                        position: self.tokenizer.get_last_token_position(),
+                    };
+                    return Err(ParsingError::Syntactic(error));
+                }
+            }
+        }
+    }
+
     pub fn classify(&self) -> FileVariant {
         self.tokenizer.reset_cursor();
         let mut variant = FileVariant::MaybeNotHDDL;
-- 
2.43.0


From a611883e033ddb5a34a0a558a7e0192a15e13d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:09 +0000
Subject: [PATCH 15/36] fix: a type without any name before it is a syntax
 error

In '(:types - a)' or '(?x - t - u)' the name after '-' was read and dropped.
---
 src/syntactic_analyzer/problem_parser/list_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/problem_parser/list_parser.rs b/src/syntactic_analyzer/problem_parser/list_parser.rs
index bda1acf..3f87547 100644
--- a/src/syntactic_analyzer/problem_parser/list_parser.rs
+++ b/src/syntactic_analyzer/problem_parser/list_parser.rs
@@ -11,7 +11,7 @@ impl<'a> Parser<'a> {
                 token = self.tokenizer.get_token()?;
             }
             match token {
-                Token::Punctuator(PunctuationType::Dash) => {
+                Token::Punctuator(PunctuationType::Dash) if !objects.is_empty() => {
                     // match type
                     let object_type = self.tokenizer.get_token()?;
                     let type_pos = self.tokenizer.get_last_token_position();
-- 
2.43.0


From b642057887b1006b2777c7df23a96f4b395f30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:41 +0000
Subject: [PATCH 16/36] fix: a file of the wrong kind is a syntax error, not a
 panic

verify, metadata and to_json panicked when given a problem as the domain or a
domain as the problem.
---
 src/lib.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a996c3..cb8aa5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,15 +41,13 @@ impl HDDLAnalyzer {
                             let warnings = problem_semantic_verifier.verify_problem()?;
                             Ok(warnings)
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(unexpected_definition(p, "a problem definition")),
                     }
                 }
                 None => Ok(symbol_table.warnings),
             }
         } else {
-            panic!("expected domain, found problem")
+            Err(unexpected_definition(domain, "a domain definition"))
         }
     }
 
@@ -74,7 +72,7 @@ impl HDDLAnalyzer {
                     n_methods: d.methods.len() as u32,
                 })
             }
-            _ => panic!("expected domain, found problem"),
+            _ => Err(unexpected_definition(domain, "a domain definition")),
         }
     }
 
@@ -99,9 +97,7 @@ impl HDDLAnalyzer {
                             return Ok(serde_json::to_string_pretty(&root).unwrap());
 
                         }
-                        _ => {
-                            panic!("expected problem, found domain")
-                        }
+                        _ => Err(unexpected_definition(p, "a problem definition")),
                     }
                 }
                 None => {
@@ -113,7 +109,21 @@ impl HDDLAnalyzer {
                     return Ok(serde_json::to_string_pretty(&root).unwrap());
                 }
             },
-            _ => panic!("expected domain, found problem"),
+            _ => Err(unexpected_definition(domain, "a domain definition")),
         }
     }
 }
+
+// the file is well-formed, but defines a problem instead of a domain (or vice versa)
+fn unexpected_definition(content: &Vec<u8>, expected: &str) -> ParsingError {
+    // the header reads "(define (domain" or "(define (problem"
+    let lexer = LexicalAnalyzer::new(content);
+    for _ in 0..3 {
+        let _ = lexer.get_token();
+    }
+    ParsingError::Syntactic(SyntacticError {
+        expected: expected.to_string(),
+        found: lexer.get_token().map_or(String::new(), |token| token.to_string()),
+        position: lexer.get_last_token_position(),
+    })
+}
-- 
2.43.0


From f51c320c68fd0495abff4675c6c89251e158a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 17/36] fix: reject formulas nested too deeply instead of
 overflowing the stack

A few thousand nested formulas aborted the process.
---
 .../domain_parser/formula_parser.rs            | 18 ++++++++++++++++++
 src/syntactic_analyzer/parser.rs               |  9 ++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/syntactic_analyzer/domain_parser/formula_parser.rs b/src/syntactic_analyzer/domain_parser/formula_parser.rs
index 539b34d..1d63ce9 100644
--- a/src/syntactic_analyzer/domain_parser/formula_parser.rs
+++ b/src/syntactic_analyzer/domain_parser/formula_parser.rs
@@ -1,7 +1,25 @@
 use super::*;
 
+// deeper formulas are rejected, because handling them recursively would overflow the stack
+const MAX_FORMULA_DEPTH: usize = 128;
+
 impl<'a> Parser<'a> {
     pub fn parse_formula(&'a self) -> Result<Formula, ParsingError> {
+        if self.formula_depth.get() == MAX_FORMULA_DEPTH {
+            let error = SyntacticError {
+                expected: format!("formulas nested at most {} levels deep", MAX_FORMULA_DEPTH),
+                found: self.tokenizer.get_token()?.to_string(),
+                position: self.tokenizer.get_last_token_position(),
+            };
+            return Err(ParsingError::Syntactic(error));
+        }
+        self.formula_depth.set(self.formula_depth.get() + 1);
+        let formula = self.parse_nested_formula();
+        self.formula_depth.set(self.formula_depth.get() - 1);
+        formula
+    }
+
+    fn parse_nested_formula(&'a self) -> Result<Formula<'a>, ParsingError> {
         match self.tokenizer.get_token()? {
             Token::Punctuator(PunctuationType::LParentheses) => {
                 match self.tokenizer.get_token()? {
diff --git a/src/syntactic_analyzer/parser.rs b/src/syntactic_analyzer/parser.rs
index a397a83..2576266 100644
--- a/src/syntactic_analyzer/parser.rs
+++ b/src/syntactic_analyzer/parser.rs
@@ -1,14 +1,21 @@
+use std::cell::Cell;
+
 use self::definition_types::ProblemDefinition;
 
 use super::*;
 
 pub struct Parser<'a> {
     pub tokenizer: LexicalAnalyzer<'a>,
+    // nesting depth of the formula that is being parsed
+    pub(super) formula_depth: Cell<usize>,
 }
 
 impl<'a> Parser<'a> {
     pub fn new(tokenizer: LexicalAnalyzer<'a>) -> Parser<'a> {
-        Parser { tokenizer }
+        Parser {
+            tokenizer,
+            formula_depth: Cell::new(0),
+        }
     }
     pub fn parse(&'a self) -> Result<AbstractSyntaxTree<'a>, ParsingError> {
         // match opening '('
-- 
2.43.0


From 15c44ca7c88d83da8d9ef3fe216db214b877fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:13 +0000
Subject: [PATCH 18/36] fix: check the predicates of existential formulas
 instead of panicking

---
 src/semantic_analyzer/undefined_elements.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/semantic_analyzer/undefined_elements.rs b/src/semantic_analyzer/undefined_elements.rs
index c84c907..5e7fd4e 100644
--- a/src/semantic_analyzer/undefined_elements.rs
+++ b/src/semantic_analyzer/undefined_elements.rs
@@ -38,16 +38,17 @@ pub fn check_predicate_declarations<'a>(
                 check_predicate_declarations(&*f, declared_predicates)?;
             }
         }
-        Formula::ForAll(_, new_formula) => {
+        Formula::ForAll(_, new_formula) | Formula::Exists(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
         Formula::Equals(_, _) => {}
         Formula::Weighted(_, new_formula) => {
             return check_predicate_declarations(&*new_formula, declared_predicates);
         }
-        // TODO: add support for imply, and exists
-        _ => {
-            panic!()
+        Formula::Imply(antecedents, consequents) => {
+            for f in antecedents.iter().chain(consequents.iter()) {
+                check_predicate_declarations(&*f, declared_predicates)?;
+            }
         }
     }
     return Ok(());
-- 
2.43.0


From 5f5bcbfa3dea67849609faf62e7f4e377bf67961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:00 +0000
Subject: [PATCH 19/36] fix: report the arity of a method's task the right way
 round, with its line

Expected and found number of parameters were swapped, and the message was the
only arity message without the line.
---
 src/output/errors/semantic.rs                      | 4 ++--
 src/semantic_analyzer/analyzers/domain_analyzer.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/output/errors/semantic.rs b/src/output/errors/semantic.rs
index 348ee90..9149818 100644
--- a/src/output/errors/semantic.rs
+++ b/src/output/errors/semantic.rs
@@ -87,8 +87,8 @@ impl fmt::Display for SemanticErrorType {
             SemanticErrorType::InconsistentTaskArity(ar_error) => {
                 write!(
                     f,
-                    "Task {} takes {} parameters, but {} are given.",
-                    ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
+                    "line {}: task {} takes {} parameters, but {} are given.",
+                    ar_error.position.line, ar_error.symbol, ar_error.expected_arity, ar_error.found_arity
                 )
             }
             SemanticErrorType::InconsistentPredicateArgType(type_error) => {
diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 405fdef..bdb2929 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -158,8 +158,8 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                         if method.task_terms.len() != declared_compound_task.parameters.len() {
                             return Err(SemanticErrorType::InconsistentTaskArity(ArityError {
                                 symbol: method.task.name.to_string(),
-                                expected_arity: method.task_terms.len() as u32,
-                                found_arity: declared_compound_task.parameters.len() as u32,
+                                expected_arity: declared_compound_task.parameters.len() as u32,
+                                found_arity: method.task_terms.len() as u32,
                                 position: method.task.name_pos,
                             }));
                         } else {
-- 
2.43.0


From ea3dd87cf6537e4c4676c72bce3187397949aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:18 +0000
Subject: [PATCH 20/36] fix: detect duplicate constants and undefined types of
 constants

The README promises both; neither was checked.
---
 .../analyzers/domain_analyzer.rs                 | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index bdb2929..41650de 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -32,8 +32,22 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut declared_constants = HashSet::new();
         match &self.domain.constants {
             Some(constants) => {
+                if let Some(error) = self.type_checker.check_type_declarations(constants) {
+                    return Err(error);
+                }
+                let mut constant_positions = HashMap::new();
                 for c in constants {
-                    declared_constants.insert(c);
+                    if !declared_constants.insert(c) {
+                        return Err(SemanticErrorType::DuplicateObjectDeclaration(
+                            DuplicateError {
+                                symbol: c.name.to_string(),
+                                first_pos: *constant_positions.get(c.name).unwrap(),
+                                second_pos: c.name_pos,
+                            },
+                        ));
+                    } else {
+                        constant_positions.insert(c.name, c.name_pos);
+                    }
                 }
             }
             None => {}
-- 
2.43.0


From 1d59a2baed1b802b66670c632bea44b8ee5e7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:38 +0000
Subject: [PATCH 21/36] fix: detect undefined types in every parameter list

The types of the parameters of functions, of the initial task network, and of
actions and methods without a formula were never looked up.
---
 .../analyzers/domain_analyzer.rs                 | 16 ++++++++++++++++
 .../analyzers/problem_analyzer.rs                |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 41650de..99aa1db 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -28,6 +28,14 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         let mut warnings = vec![];
         // Domain declarations
         let declared_predicates = self.verify_predicates()?;
+        for function in self.domain.functions.iter() {
+            if let Some(error) = self
+                .type_checker
+                .check_type_declarations(&function.variables)
+            {
+                return Err(error);
+            }
+        }
         let declared_tasks = self.verify_compound_tasks()?;
         let mut declared_constants = HashSet::new();
         match &self.domain.constants {
@@ -84,6 +92,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&action.parameters) {
+                return Err(error);
+            }
             // assert precondition predicates are declared
             match &action.preconditions {
                 Some(precondition) => {
@@ -145,6 +157,10 @@ impl<'a> DomainSemanticAnalyzer<'a> {
                     param_positions.insert(param.name, param.name_pos);
                 }
             }
+            // Assert parameter types are declared
+            if let Some(error) = self.type_checker.check_type_declarations(&method.params) {
+                return Err(error);
+            }
             // Assert preconditions are valid
             match &method.precondition {
                 Some(precondition) => {
diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index 6ba5fef..a72cb03 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -58,6 +58,12 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
                 );
             }
 
+            if let Some(parameters) = &htn.parameters {
+                if let Some(error) = self.type_checker.check_type_declarations(parameters) {
+                    return Err(error);
+                }
+            }
+
             for subtask in htn.tn.subtasks.iter() {
                 let _ = self
                     .type_checker
-- 
2.43.0


From 0df2e9bb705a095c0877bd666ad43d1086bd41ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:56 +0000
Subject: [PATCH 22/36] fix: report the right type and kind for badly typed
 arguments in problems

For an object in an init or goal atom the error named no found type (and its
message panicked when none was expected either); a badly typed constant in the
initial task network was reported as an error of a predicate.
---
 src/semantic_analyzer/type_checker/problem_type_checker.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semantic_analyzer/type_checker/problem_type_checker.rs b/src/semantic_analyzer/type_checker/problem_type_checker.rs
index e77d954..6e7ecc6 100644
--- a/src/semantic_analyzer/type_checker/problem_type_checker.rs
+++ b/src/semantic_analyzer/type_checker/problem_type_checker.rs
@@ -58,7 +58,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                 return Err(SemanticErrorType::InconsistentPredicateArgType(
                                     TypeError {
                                         expected: expected.symbol_type.map(String::from),
-                                        found: found.symbol_type.map(String::from),
+                                        found: object_type.map(String::from),
                                         var_name: predicate.name.to_string(),
                                         position: found.name_pos,
                                     },
@@ -177,7 +177,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
@@ -268,7 +268,7 @@ impl<'a> ProblemTypeChecker<'a> {
                                         );
                                     if !is_consistent {
                                         return Err(
-                                            SemanticErrorType::InconsistentPredicateArgType(
+                                            SemanticErrorType::InconsistentTaskArgType(
                                                 TypeError {
                                                     expected: expected
                                                         .symbol_type
-- 
2.43.0


From 55574002480ec23c7ece96d101d66f8ab80380b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:14 +0000
Subject: [PATCH 23/36] fix: check the predicates below quantifiers in goals

Undefined predicates and wrong numbers of arguments went unnoticed there.
---
 src/semantic_analyzer/analyzers/problem_analyzer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/semantic_analyzer/analyzers/problem_analyzer.rs b/src/semantic_analyzer/analyzers/problem_analyzer.rs
index a72cb03..0788f4a 100644
--- a/src/semantic_analyzer/analyzers/problem_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/problem_analyzer.rs
@@ -74,6 +74,15 @@ impl<'a> ProblemSemanticAnalyzer<'a> {
         // check goal description
         match &self.problem.goal {
             Some(goal) => {
+                // quantified atoms included
+                let declared_predicates = self
+                    .type_checker
+                    .symbol_table
+                    .predicates
+                    .iter()
+                    .map(|predicate| (*predicate).clone())
+                    .collect();
+                check_predicate_declarations(goal, &declared_predicates)?;
                 for predicate in goal.get_propositional_predicates() {
                     let _ = self.type_checker.check_predicate_instantiation(predicate)?;
                 }
-- 
2.43.0


From 1f9e9eeeeaf6233278fbd0632da965bfb36a52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:22 +0000
Subject: [PATCH 24/36] fix: compute nullable tasks as a fixpoint

The result depended on hash iteration order and could contain tasks that
cannot be decomposed into the empty network (methods with two or more
non-nullable subtasks counted as unit methods); without compound tasks the
computation never ended.
---
 src/semantic_analyzer/tdg.rs | 104 +++++------------------------------
 1 file changed, 13 insertions(+), 91 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index 7117eae..fd018fe 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -416,99 +416,21 @@ impl<'a> TDG<'a> {
             })
             .collect();
 
-        // unit reachability base case
-        let mut unit_reachability: HashMap<usize, HashSet<usize>> = HashMap::new();
-        for (t, t_type) in self.tasks.iter() {
-            match *t_type {
-                TaskType::Primitive => {}
-                TaskType::Compound => {
-                    let task_index = self.get_task_index(t);
-                    let mut value = HashSet::from([task_index]);
-                    if let Some(methods) = self.edges_from_tasks.get(&task_index) {
-                        for method in methods {
-                            let tasks = self.edges_to_tasks.get(method).unwrap();
-                            if tasks.len() == 1 {
-                                value.insert(*tasks.iter().next().unwrap());
-                            }
-                        }
-                    }
-
-                    unit_reachability.insert(task_index, value);
-                }
-            }
-        }
-        let mut changed_nullables = true;
-        let mut changed_unit_reachability = true;
-        let mut new_nullables = HashSet::new();
-        let mut new_unit_reachable: HashMap<usize, HashSet<usize>> = HashMap::new();
-        while changed_nullables || changed_unit_reachability {
-            // nullables induction step
-            for (t, methods) in self.edges_from_tasks.iter() {
-                for method in methods {
-                    if let Some(tasks) = self.edges_to_tasks.get(method) {
-                        if tasks.iter().all(|x| match unit_reachability.get(x) {
-                            Some(set) => {
-                                let intersection: HashSet<&usize> =
-                                    set.intersection(&nullables).collect();
-                                intersection.len() != 0
-                            }
-                            None => false,
-                        }) {
-                            new_nullables.insert(*t);
-                        }
-                    }
-                }
-            }
-
-            // unit reachability induction step
-            for (c, previous_reachables) in unit_reachability.iter() {
-                let mut change = previous_reachables.clone();
-                for previous_reachable in previous_reachables {
-                    match unit_reachability.get(previous_reachable) {
-                        Some(tasks) => {
-                            change = change.union(tasks).cloned().collect();
-                        }
-                        None => {}
-                    }
-                }
-                for method in self.edges_from_tasks.get(c).unwrap() {
-                    if let Some(tasks) = self.edges_to_tasks.get(method) {
-                        let mut not_nullable = None;
-                        for task in tasks {
-                            if !nullables.contains(task) {
-                                if not_nullable.is_none() {
-                                    not_nullable = Some(*task)
-                                } else {
-                                    break;
-                                }
-                            }
-                        }
-                        if let Some(val) = not_nullable {
-                            change.insert(val);
-                        }
-                    }
-                }
-                if change == *previous_reachables {
-                    changed_unit_reachability = false;
-                } else {
-                    new_unit_reachable.insert(*c, change);
-                }
-            }
-
-            // commit to changes
-            //// nullables
-            if new_nullables.len() == nullables.len() {
-                changed_nullables = false;
-            } else {
-                for n in new_nullables.iter() {
-                    nullables.insert(*n);
+        // induction step: a task is nullable if some method of it has only nullable subtasks
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for (task, methods) in self.edges_from_tasks.iter() {
+                if !nullables.contains(task)
+                    && methods.iter().any(|method| {
+                        let tasks = self.edges_to_tasks.get(method).unwrap();
+                        tasks.iter().all(|x| nullables.contains(x))
+                    })
+                {
+                    nullables.insert(*task);
+                    changed = true;
                 }
             }
-            //// unit reachability
-            for (task, new_reachable) in new_unit_reachable.iter() {
-                let prev = unit_reachability.get_mut(&task).unwrap();
-                prev.extend(new_reachable);
-            }
         }
         let mut result = HashSet::new();
         for task_index in nullables {
-- 
2.43.0


From 5cb86506e8eff2e4a971cdb0b9584fd04c546c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 25/36] fix: flag exactly the compound tasks without a
 primitive refinement

A task that can only be decomposed for ever was not flagged if an action is
reachable from it, and the warnings came in hash order.
---
 .../analyzers/domain_analyzer.rs              |  6 ++---
 src/semantic_analyzer/tdg.rs                  | 22 +++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/semantic_analyzer/analyzers/domain_analyzer.rs b/src/semantic_analyzer/analyzers/domain_analyzer.rs
index 99aa1db..07df875 100644
--- a/src/semantic_analyzer/analyzers/domain_analyzer.rs
+++ b/src/semantic_analyzer/analyzers/domain_analyzer.rs
@@ -229,9 +229,9 @@ impl<'a> DomainSemanticAnalyzer<'a> {
         }
         // Check whether all compound tasks can be refined to primitive ones
         let tdg = TDG::new(self.domain);
-        for task in declared_tasks.iter() {
-            let reachables = tdg.reachable(&task.name);
-            if (reachables.primitives.len() == 0) && (reachables.nullable == false) {
+        let refinables = tdg.compute_refinables();
+        for task in self.domain.compound_tasks.iter() {
+            if !refinables.contains(task.name) {
                 warnings.push(WarningType::NoPrimitiveRefinement(WarningInfo {
                     symbol: task.name.to_string(),
                     position: task.name_pos,
diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index fd018fe..d47e3f3 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -400,6 +400,28 @@ impl<'a> TDG<'a> {
             .0
     }
 
+    // compound tasks that can be decomposed into a (possibly empty) network of actions
+    pub fn compute_refinables(&self) -> HashSet<&'a str> {
+        let mut refinables: HashSet<usize> = HashSet::new();
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for (task, methods) in self.edges_from_tasks.iter() {
+                if !refinables.contains(task)
+                    && methods.iter().any(|method| {
+                        self.edges_to_tasks.get(method).unwrap().iter().all(|x| {
+                            self.tasks[*x].1 == TaskType::Primitive || refinables.contains(x)
+                        })
+                    })
+                {
+                    refinables.insert(*task);
+                    changed = true;
+                }
+            }
+        }
+        refinables.into_iter().map(|x| self.tasks[x].0).collect()
+    }
+
     pub fn compute_nullables(&self) -> HashSet<&'a str> {
         // nullable base case
         let mut nullables: HashSet<usize> = self
-- 
2.43.0


From 852e72f14852a784f95d0771f83bfdb1607ef69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 26/36] fix: classify recursion for every ordering of the
 subtasks

For partially ordered methods the analysis panicked unless there was exactly
one ordering per subtask but one, looped, compared ids by substring, or ignored
the order; a prefix starting with the recursive task was taken for empty.
---
 src/semantic_analyzer/tdg.rs | 191 ++++++++++-------------------------
 1 file changed, 54 insertions(+), 137 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index d47e3f3..ac7e142 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -171,19 +171,16 @@ impl<'a> TDG<'a> {
                         let mut suffix: Vec<usize> = vec![];
                         for (index, (t_id, _)) in cyclic_path.iter().skip(1).enumerate() {
                             let (_, m_id) = cyclic_path[index];
-                            let prefix = self.get_prefix(*t_id, m_id);
+                            let (prefix, rest) =
+                                self.get_prefix_and_suffix(*t_id, m_id, &nullables);
                             // check epsilon prefix
-                            if prefix.len() > 0 {
-                                if prefix[0] != *new_task {
-                                    for x in prefix.iter() {
-                                        if !nullables.contains(x) {
-                                            is_epsilon_prefix = false;
-                                            break;
-                                        }
-                                    }
+                            for x in prefix.iter() {
+                                if !nullables.contains(x) {
+                                    is_epsilon_prefix = false;
+                                    break;
                                 }
                             }
-                            suffix.extend(self.get_suffix(*t_id, m_id));
+                            suffix.extend(rest);
                         }
                         // convert cyclic path to names
                         let cyclic_path = cyclic_path
@@ -251,144 +248,64 @@ impl<'a> TDG<'a> {
         return recursion_type;
     }
 
-    fn get_prefix(&self, task_index: usize, method_index: usize) -> Vec<usize> {
+    // splits the other subtasks of a method into those ordered before an occurrence of a task, and the rest.
+    // Among several occurrences, one with a nullable and short prefix is preferred.
+    fn get_prefix_and_suffix(
+        &self,
+        task_index: usize,
+        method_index: usize,
+        nullables: &HashSet<usize>,
+    ) -> (Vec<usize>, Vec<usize>) {
         let (_, method) = &self.methods[method_index];
         let (task, _) = &self.tasks[task_index];
-        match &method.orderings {
-            TaskOrdering::Total => {
-                for (index, subtask) in method.subtasks.iter().enumerate() {
-                    if subtask.task.name == *task {
-                        return method
-                            .subtasks
-                            .iter()
-                            .take(index)
-                            .map(|x| self.get_task_index(&x.task.name))
-                            .collect();
-                    }
-                }
-                panic!("{} does not exist in {:?}", task, method.subtasks)
+        let mut result: Option<(Vec<usize>, Vec<usize>)> = None;
+        for (index, subtask) in method.subtasks.iter().enumerate() {
+            if subtask.task.name != *task {
+                continue;
             }
-            TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
+            let predecessors = self.get_predecessors(index, method);
+            let mut prefix = vec![];
+            let mut suffix = vec![];
+            for (other_index, other) in method.subtasks.iter().enumerate() {
+                if predecessors.contains(&other_index) {
+                    prefix.push(self.get_task_index(&other.task.name));
+                } else if other_index != index {
+                    suffix.push(self.get_task_index(&other.task.name));
                 }
-                // construct the ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(&e2);
-                    } else {
-                        adjacency.insert(&e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut prefix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoings) => {
-                            for outgoing in outgoings {
-                                for occurance in task_occurances.iter() {
-                                    if outgoing.contains(occurance) {
-                                        prefix.push(id_to_task_mapping.get(t).unwrap());
-                                        stack.push(&t);
-                                    }
-                                }
-                            }
-                        }
-                        None => {}
-                    }
-                }
-                return prefix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect();
+            }
+            let rank = |prefix: &Vec<usize>| {
+                (!prefix.iter().all(|x| nullables.contains(x)), prefix.len())
+            };
+            match &result {
+                Some((best, _)) if rank(best) <= rank(&prefix) => {}
+                _ => result = Some((prefix, suffix)),
             }
         }
+        result.unwrap()
     }
 
-    fn get_suffix(&self, task_index: usize, method_index: usize) -> Vec<usize> {
-        let (_, method) = &self.methods[method_index];
-        let (task, _) = &self.tasks[task_index];
-        match &method.orderings {
-            TaskOrdering::Total => {
-                for (index, subtask) in method.subtasks.iter().enumerate() {
-                    if subtask.task.name == *task {
-                        return method
-                            .subtasks
-                            .iter()
-                            .skip(index + 1)
-                            .map(|x| self.get_task_index(&x.task.name))
-                            .collect();
-                    }
-                }
-                panic!("{} does not exist in {:?}", task, method)
-            }
-            TaskOrdering::Partial(orderings) => {
-                // TODO: generalize to unordered tasks
-                assert_eq!(orderings.len(), method.subtasks.len() - 1);
-                // construct task id mappings
-                let mut id_to_task_mapping: HashMap<&str, &str> = HashMap::new();
-                let mut task_occurances: HashSet<&str> = HashSet::new();
-                for subtask in method.subtasks.iter() {
-                    match &subtask.id {
-                        Some(id) => {
-                            id_to_task_mapping.insert(&id.name, &subtask.task.name);
-                            if subtask.task.name == *task {
-                                task_occurances.insert(&id.name);
-                            }
-                        }
-                        None => {}
-                    }
+    // indices of the subtasks that are ordered before the given one
+    fn get_predecessors(&self, subtask_index: usize, method: &HTN<'a>) -> HashSet<usize> {
+        let orderings = match &method.orderings {
+            TaskOrdering::Total => return (0..subtask_index).collect(),
+            TaskOrdering::Partial(orderings) => orderings,
+        };
+        let mut ids = HashSet::new();
+        let mut stack: Vec<&str> = vec![];
+        stack.extend(method.subtasks[subtask_index].id.iter().map(|id| id.name));
+        while let Some(id) = stack.pop() {
+            for (before, after) in orderings.iter() {
+                if *after == id && ids.insert(*before) {
+                    stack.push(before);
                 }
-                // construct ordering graph
-                let mut adjacency: HashMap<&str, HashSet<&str>> = HashMap::new();
-                for (e1, e2) in orderings {
-                    if adjacency.contains_key(e1) {
-                        let neighbors: &mut HashSet<&str> = adjacency.get_mut(e1).unwrap();
-                        neighbors.insert(e2);
-                    } else {
-                        adjacency.insert(e1, HashSet::from([*e2]));
-                    }
-                }
-                // find tasks that are explicitly ordered after "task"
-                let mut suffix: Vec<&str> = Vec::new();
-                let mut stack = Vec::from_iter(task_occurances.iter());
-                while let Some(t) = stack.pop() {
-                    match adjacency.get(t) {
-                        Some(outgoing) => {
-                            stack.extend(outgoing.iter());
-                            suffix.extend(outgoing.iter());
-                        }
-                        None => {}
-                    }
-                }
-                suffix
-                    .iter()
-                    .map(|id| {
-                        let task_name = id_to_task_mapping.get(id).unwrap();
-                        self.get_task_index(&task_name)
-                    })
-                    .collect()
             }
         }
+        (0..method.subtasks.len())
+            .filter(|x| match &method.subtasks[*x].id {
+                Some(id) => *x != subtask_index && ids.contains(id.name),
+                None => false,
+            })
+            .collect()
     }
 
     fn get_task_index(&self, task_name: &str) -> usize {
-- 
2.43.0


From 69ba4854981e0f7f4c8dab391e432faff7ee4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:44 +0000
Subject: [PATCH 27/36] fix: report nullables, cycles and JSON keys in a fixed
 order

All three came in hash order, so that two runs on the same files differed.
---
 src/lib.rs                   | 13 +++++++++----
 src/semantic_analyzer/tdg.rs | 15 ++++++++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cb8aa5b..2d6aac8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,7 +6,7 @@ mod syntactic_analyzer;
 mod language_server;
 pub use language_server::RequestHandler;
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::lexical_analyzer::TokenPosition;
 use lexical_analyzer::LexicalAnalyzer;
@@ -65,7 +65,12 @@ impl HDDLAnalyzer {
                 let recursion_type = tdg.get_recursion_type(&nullables);
                 Ok(MetaData {
                     recursion: recursion_type,
-                    nullables: nullables.iter().map(|x| x.to_string()).collect(),
+                    nullables: d
+                        .compound_tasks
+                        .iter()
+                        .filter(|task| nullables.contains(task.name))
+                        .map(|task| task.name.to_string())
+                        .collect(),
                     domain_name: String::new(),
                     n_actions: d.actions.len() as u32,
                     n_tasks: d.compound_tasks.len() as u32,
@@ -88,7 +93,7 @@ impl HDDLAnalyzer {
                     let problem_ast = problem_parser.parse()?;
                     match problem_ast {
                         AbstractSyntaxTree::Problem(p) => {
-                            let root = HashMap::from(
+                            let root = BTreeMap::from(
                                 [
                                     ("domain", AbstractSyntaxTree::Domain(d)),
                                     ("problem", AbstractSyntaxTree::Problem(p))
@@ -101,7 +106,7 @@ impl HDDLAnalyzer {
                     }
                 }
                 None => {
-                    let root = HashMap::from(
+                    let root = BTreeMap::from(
                         [
                             ("domain", AbstractSyntaxTree::Domain(d)),
                         ]
diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index ac7e142..dc80f3d 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -1,12 +1,13 @@
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
 
 use super::*;
 
 pub struct TDG<'a> {
     tasks: Vec<(&'a str, TaskType)>,
     methods: Vec<(&'a Symbol<'a>, HTN<'a>)>,
-    edges_from_tasks: HashMap<usize, HashSet<usize>>,
-    edges_to_tasks: HashMap<usize, HashSet<usize>>,
+    // ordered, so that the reported cycle does not depend on hashing
+    edges_from_tasks: BTreeMap<usize, BTreeSet<usize>>,
+    edges_to_tasks: BTreeMap<usize, BTreeSet<usize>>,
 }
 
 impl<'a> TDG<'a> {
@@ -22,14 +23,14 @@ impl<'a> TDG<'a> {
         tasks.extend(domain.actions.iter().map(|x| (x.name, TaskType::Primitive)));
 
         // edges
-        let mut to_methods = HashMap::new();
-        let mut to_tasks = HashMap::new();
+        let mut to_methods = BTreeMap::new();
+        let mut to_tasks = BTreeMap::new();
 
         // compute index of tasks and methods for efficiency
         let mut task_indices = HashMap::new();
         for (index, (task, _)) in tasks.iter().enumerate() {
             task_indices.insert(*task, index);
-            to_methods.insert(index, HashSet::new());
+            to_methods.insert(index, BTreeSet::new());
         }
 
         let mut methods = vec![];
@@ -49,7 +50,7 @@ impl<'a> TDG<'a> {
 
         // collect "method to task" edges
         for (method_index, method) in methods.iter().enumerate() {
-            let tasks: HashSet<usize> = method
+            let tasks: BTreeSet<usize> = method
                 .1
                 .subtasks
                 .iter()
-- 
2.43.0


From 991f4bf7a4ff5bf0d56a3571e15678a2d1dbc238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:55 +0000
Subject: [PATCH 28/36] fix: metadata of an invalid domain is an error, not a
 panic

Undefined tasks made the construction of the decomposition graph panic.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2d6aac8..7b04fdc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,6 +60,7 @@ impl HDDLAnalyzer {
         let domain_ast = domain_parser.parse()?;
         match domain_ast {
             AbstractSyntaxTree::Domain(d) => {
+                DomainSemanticAnalyzer::new(&d).verify_domain()?;
                 let tdg = TDG::new(&d);
                 let nullables = tdg.compute_nullables();
                 let recursion_type = tdg.get_recursion_type(&nullables);
-- 
2.43.0


From 37abf805bfb5db9f3828a659369bdadbc05eff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:53 +0000
Subject: [PATCH 29/36] fix: classify recursion without enumerating all
 decomposition paths

The number of simple paths is exponential: metadata took 12 s on the IPC domain
Freecell-Learned and did not end on domains with some 15 mutually recursive
tasks. Search for the strongest type of cycle directly instead.
---
 src/semantic_analyzer/tdg.rs | 194 +++++++++++++++++------------------
 1 file changed, 97 insertions(+), 97 deletions(-)

diff --git a/src/semantic_analyzer/tdg.rs b/src/semantic_analyzer/tdg.rs
index dc80f3d..226f032 100644
--- a/src/semantic_analyzer/tdg.rs
+++ b/src/semantic_analyzer/tdg.rs
@@ -141,112 +141,99 @@ impl<'a> TDG<'a> {
             .iter()
             .map(|x| self.get_task_index(&x))
             .collect();
-        let mut recursion_type = RecursionType::NonRecursive;
-        // DFS over TDG
-        let mut stack = vec![];
-        // initiating the stack
+        // all decomposition steps from a task to one of its subtasks
         // TODO: restrict to those reachable from inital task network
-        for (t, methods) in self.edges_from_tasks.iter() {
+        let mut steps = vec![];
+        for (task, methods) in self.edges_from_tasks.iter() {
             for method in methods {
-                stack.push(vec![(*t, *method)]);
+                for subtask in self.edges_to_tasks.get(method).unwrap() {
+                    let (prefix, suffix) =
+                        self.get_prefix_and_suffix(*subtask, *method, &nullables);
+                    steps.push(DecompositionStep {
+                        task: *task,
+                        method: *method,
+                        subtask: *subtask,
+                        is_epsilon_prefix: prefix.iter().all(|x| nullables.contains(x)),
+                        is_empty_suffix: suffix.is_empty(),
+                        is_nullable_suffix: suffix.iter().all(|x| nullables.contains(x)),
+                    });
+                }
             }
         }
-        // induction
-        while let Some(path) = stack.pop() {
-            let (_, current_method) = path.iter().last().unwrap();
-            for new_task in self.edges_to_tasks.get(current_method).unwrap() {
-                let mut cycle: Option<Vec<(usize, usize)>> = None;
-                for (index, (t, _)) in path.iter().enumerate() {
-                    if t == new_task {
-                        let mut cycle_path: Vec<(usize, usize)> =
-                            path.iter().skip(index).cloned().collect();
-                        cycle_path.push((*new_task, *current_method));
-                        cycle = Some(cycle_path);
-                        break;
-                    }
+        // search for the strongest type of cycle first
+        if let Some(cycle) = self.find_cycle(
+            &steps,
+            |step| step.is_epsilon_prefix && step.is_nullable_suffix,
+            |step| !step.is_empty_suffix,
+        ) {
+            return RecursionType::GrowAndShrinkRecursion(cycle);
+        }
+        if let Some(cycle) = self.find_cycle(
+            &steps,
+            |step| step.is_epsilon_prefix && step.is_empty_suffix,
+            |_| true,
+        ) {
+            return RecursionType::EmptyRecursion(cycle);
+        }
+        if let Some(cycle) = self.find_cycle(&steps, |step| step.is_epsilon_prefix, |_| true) {
+            return RecursionType::GrowingEmptyPrefixRecursion(cycle);
+        }
+        if let Some(cycle) = self.find_cycle(&steps, |_| true, |_| true) {
+            return RecursionType::Recursive(cycle);
+        }
+        return RecursionType::NonRecursive;
+    }
+
+    // finds a cycle of allowed steps that starts with a required one (as pairs of task and method names)
+    fn find_cycle(
+        &self,
+        steps: &Vec<DecompositionStep>,
+        is_allowed: impl Fn(&DecompositionStep) -> bool,
+        is_required: impl Fn(&DecompositionStep) -> bool,
+    ) -> Option<Vec<(String, String)>> {
+        let mut outgoing: BTreeMap<usize, Vec<&DecompositionStep>> = BTreeMap::new();
+        for step in steps.iter().filter(|step| is_allowed(step)) {
+            outgoing.entry(step.task).or_default().push(step);
+        }
+        for first in outgoing.values().flatten().filter(|step| is_required(step)) {
+            // breadth-first search for a way back
+            let mut reached_by: BTreeMap<usize, &DecompositionStep> =
+                BTreeMap::from([(first.subtask, *first)]);
+            let mut queue = VecDeque::from([first.subtask]);
+            while let Some(task) = queue.pop_front() {
+                if task == first.task {
+                    break;
                 }
-                match cycle {
-                    Some(cyclic_path) => {
-                        // compute cycle prefix
-                        let mut is_epsilon_prefix = true;
-                        let mut suffix: Vec<usize> = vec![];
-                        for (index, (t_id, _)) in cyclic_path.iter().skip(1).enumerate() {
-                            let (_, m_id) = cyclic_path[index];
-                            let (prefix, rest) =
-                                self.get_prefix_and_suffix(*t_id, m_id, &nullables);
-                            // check epsilon prefix
-                            for x in prefix.iter() {
-                                if !nullables.contains(x) {
-                                    is_epsilon_prefix = false;
-                                    break;
-                                }
-                            }
-                            suffix.extend(rest);
-                        }
-                        // convert cyclic path to names
-                        let cyclic_path = cyclic_path
-                            .iter()
-                            .map(|(task_id, method_id)| {
-                                (
-                                    self.tasks[*task_id].0.to_string(),
-                                    self.methods[*method_id].0.name.to_string(),
-                                )
-                            })
-                            .collect();
-                        if is_epsilon_prefix == true {
-                            if suffix.len() == 0 {
-                                match recursion_type {
-                                    RecursionType::GrowAndShrinkRecursion(_) => {}
-                                    _ => {
-                                        recursion_type = RecursionType::EmptyRecursion(cyclic_path);
-                                    }
-                                }
-                            } else {
-                                let nullable_suffix =
-                                    suffix.iter().all(|sym| nullables.contains(sym));
-                                match recursion_type {
-                                    RecursionType::GrowAndShrinkRecursion(_) => {}
-                                    RecursionType::EmptyRecursion(_) => {
-                                        if nullable_suffix {
-                                            recursion_type =
-                                                RecursionType::GrowAndShrinkRecursion(cyclic_path);
-                                        }
-                                    }
-                                    _ => {
-                                        if nullable_suffix {
-                                            recursion_type =
-                                                RecursionType::GrowAndShrinkRecursion(cyclic_path);
-                                        } else {
-                                            recursion_type =
-                                                RecursionType::GrowingEmptyPrefixRecursion(
-                                                    cyclic_path,
-                                                );
-                                        }
-                                    }
-                                }
-                            }
-                        } else {
-                            match recursion_type {
-                                RecursionType::NonRecursive => {
-                                    recursion_type = RecursionType::Recursive(cyclic_path);
-                                }
-                                _ => {}
-                            }
-                        }
-                    }
-                    None => {
-                        if let Some(methods) = self.edges_from_tasks.get(new_task) {
-                            for method in methods {
-                                let mut new_path = path.clone();
-                                new_path.push((*new_task, *method));
-                                stack.push(new_path);
-                            }
-                        }
+                for step in outgoing.get(&task).into_iter().flatten() {
+                    if !reached_by.contains_key(&step.subtask) {
+                        reached_by.insert(step.subtask, step);
+                        queue.push_back(step.subtask);
                     }
                 }
             }
+            if let Some(last) = reached_by.get(&first.task) {
+                // collect the cycle, starting from its end
+                let mut cycle = vec![(last.subtask, last.method), (last.task, last.method)];
+                let mut step = *last;
+                while step.task != first.task {
+                    step = reached_by.get(&step.task).unwrap();
+                    cycle.push((step.task, step.method));
+                }
+                cycle.reverse();
+                return Some(
+                    cycle
+                        .iter()
+                        .map(|(task_id, method_id)| {
+                            (
+                                self.tasks[*task_id].0.to_string(),
+                                self.methods[*method_id].0.name.to_string(),
+                            )
+                        })
+                        .collect(),
+                );
+            }
         }
-        return recursion_type;
+        None
     }
 
     // splits the other subtasks of a method into those ordered before an occurrence of a task, and the rest.
@@ -380,6 +367,19 @@ impl<'a> TDG<'a> {
     }
 }
 
+// one decomposition of a task by a method, seen from one of the subtasks
+struct DecompositionStep {
+    task: usize,
+    method: usize,
+    subtask: usize,
+    // the subtasks ordered before are all nullable
+    is_epsilon_prefix: bool,
+    // there are no other remaining subtasks
+    is_empty_suffix: bool,
+    // the other remaining subtasks are all nullable
+    is_nullable_suffix: bool,
+}
+
 #[derive(Debug, PartialEq, Eq, Hash)]
 enum TaskType {
     Primitive,
-- 
2.43.0


From 1ab7eb5d66d45a5fbe056035527d090d61f62462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:25 +0000
Subject: [PATCH 30/36] fix: diagnostics of duplicate declarations no longer
 panic

The dummy URI of the related information does not parse, so the language server
panicked on every duplicate. The message names both lines.
---
 src/language_server/diagnostic_utils.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/language_server/diagnostic_utils.rs b/src/language_server/diagnostic_utils.rs
index 5102f09..630c10b 100644
--- a/src/language_server/diagnostic_utils.rs
+++ b/src/language_server/diagnostic_utils.rs
@@ -10,7 +10,6 @@ use crate::SemanticErrorType;
 use tower_lsp::lsp_types::DocumentDiagnosticReportResult;
 use tower_lsp::lsp_types::{FullDocumentDiagnosticReport, DocumentDiagnosticReport};
 use tower_lsp::lsp_types::RelatedFullDocumentDiagnosticReport;
-use tower_lsp::lsp_types::{DiagnosticRelatedInformation, Location, Url};
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range};
 
 
@@ -196,19 +195,8 @@ impl From<ParsingError> for Diagnostic {
                             None, 
                             source, 
                             semantic_error.to_string(), 
-                            Some(vec![
-                                DiagnosticRelatedInformation {
-                                    location: Location {
-                                        // TODO: fix the dummy URI
-                                        uri: Url::parse("//").unwrap(),
-                                        range: Range {
-                                            start: Position { line: duplicate.first_pos.line - 1, character: 0 },
-                                            end: Position { line: duplicate.first_pos.line, character: 0 }
-                                        }
-                                    },
-                                    message: semantic_error.to_string()
-                                }
-                            ]), 
+                            // TODO: relate the first declaration, which needs the URI of the document
+                            None,
                             None
                         )
                     }
-- 
2.43.0


From fca40d64d3f752961f1dd7880b52e8018d40fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:37 +0000
Subject: [PATCH 31/36] fix: a save notification without text keeps the synced
 text

The file was read from the (percent-encoded) URI path, panicking if that failed,
and its contents replaced the synced text even if that was newer.
---
 src/language_server/request_handler.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 37371c6..3c840e8 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -70,15 +70,20 @@ impl LanguageServer for RequestHandler {
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-        // get the saved file content
-        let text = match params.text {
-            Some(content) => content.into_bytes(),
-            None => tokio::fs::read(params.text_document.uri.path())
-                .await
-                .unwrap(),
-        };
-        // sync the file
-        self.sync(params.text_document.uri, text).await;
+        let uri = params.text_document.uri;
+        match params.text {
+            // sync the saved file content
+            Some(content) => self.sync(uri, content.into_bytes()).await,
+            // the text of a synced document is known already, and may be newer than the file
+            None if self.documents.read().await.contains_key(&uri) => {}
+            None => {
+                if let Ok(path) = uri.to_file_path() {
+                    if let Ok(text) = tokio::fs::read(path).await {
+                        self.documents.write().await.entry(uri).or_insert(text);
+                    }
+                }
+            }
+        }
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-- 
2.43.0


From 39f5b3cfa586187379ddadde8f8b5e76658eb197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:48 +0000
Subject: [PATCH 32/36] fix: the last of several full-text changes is the
 current text

---
 src/language_server/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index 3c840e8..b9a0e24 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -89,7 +89,7 @@ impl LanguageServer for RequestHandler {
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let uri = params.text_document.uri;
         // TODO: add support for incremental change
-        if let Some(new_text) = params.content_changes.into_iter().next() {
+        if let Some(new_text) = params.content_changes.into_iter().last() {
             self.sync(uri, new_text.text.into_bytes()).await
         }
     }
-- 
2.43.0


From 7bbf285601b0d0bd805257d5e198a639c7555515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 33/36] fix: problems outside a readable folder are diagnosed
 without a domain

Documents whose URI is no file path, a missing folder, and unreadable files in
the folder made the language server panic.
---
 src/language_server/request_handler.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index b9a0e24..ad1b5e1 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -103,7 +103,6 @@ impl LanguageServer for RequestHandler {
                 self.client
                     .log_message(MessageType::LOG, "Diagnostic Request Recieved.")
                     .await;
-                let file_path = params.text_document.uri.to_file_path().unwrap();
                 match classify_file(document) {
                     FileVariant::Domain => {
                         self.client
@@ -119,12 +118,21 @@ impl LanguageServer for RequestHandler {
                         return Ok(diagnosis);
                     }
                     FileVariant::Problem => {
-                        let root_folder = file_path.parent().unwrap();
-                        let mut files = tokio::fs::read_dir(root_folder).await.unwrap();
+                        // only documents in a readable folder can have a domain next to them
+                        let file_path = params.text_document.uri.to_file_path().unwrap_or_default();
+                        let root_folder = file_path.parent().unwrap_or(&file_path);
+                        let mut files = match tokio::fs::read_dir(root_folder).await {
+                            Ok(files) => files,
+                            Err(_) => return Ok(diagnose_problem(None, document)),
+                        };
                         while let Ok(Some(entry)) = files.next_entry().await {
                             match entry.path().extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = tokio::fs::read(entry.path()).await.unwrap();
+                                    let content = match tokio::fs::read(entry.path()).await {
+                                        Ok(content) => content,
+                                        // the domain cannot be an unreadable file
+                                        Err(_) => continue,
+                                    };
                                     match classify_file(&content) {
                                         FileVariant::Domain => {
                                             self.client
@@ -132,7 +140,7 @@ impl LanguageServer for RequestHandler {
                                                     MessageType::LOG,
                                                     format!(
                                                         "{} is the domain for {}. Attempting to diagnose.",
-                                                        root_folder.to_str().unwrap(),
+                                                        root_folder.display(),
                                                         params.text_document.uri.to_string()
                                                     ),
                                                 ).await;
@@ -152,7 +160,7 @@ impl LanguageServer for RequestHandler {
                                 MessageType::LOG,
                                 format!(
                                     "Could not find the domain in {}",
-                                    root_folder.to_str().unwrap()
+                                    root_folder.display()
                                 ),
                             )
                             .await;
-- 
2.43.0


From 27ac45e2e567c399e4badaf683fd90826bfc2c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:49 +0000
Subject: [PATCH 34/36] fix: name the operator imply as it is written in syntax
 errors

---
 src/lexical_analyzer/token_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexical_analyzer/token_types.rs b/src/lexical_analyzer/token_types.rs
index 9088092..96ae118 100644
--- a/src/lexical_analyzer/token_types.rs
+++ b/src/lexical_analyzer/token_types.rs
@@ -74,7 +74,7 @@ impl fmt::Display for OperationType {
             OperationType::Xor => write!(fmt, "oneof"),
             OperationType::ForAll => write!(fmt, "forall"),
             OperationType::Exists => write!(fmt, "exists"),
-            OperationType::Implication => write!(fmt, "when"),
+            OperationType::Implication => write!(fmt, "imply"),
             OperationType::Probabilistic => write!(fmt, "probabilistic"),
             OperationType::Equal => write!(fmt, "="),
             OperationType::LessThan => write!(fmt, "<"),
-- 
2.43.0


From b453ad98d5555a46bf4224df794cf38d07f078e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 35/36] fix: read only regular files in the language server

Reading a named pipe next to a problem, or one that is saved without its text, never ends.
---
 src/language_server/request_handler.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/language_server/request_handler.rs b/src/language_server/request_handler.rs
index ad1b5e1..7bab8ea 100644
--- a/src/language_server/request_handler.rs
+++ b/src/language_server/request_handler.rs
@@ -1,4 +1,5 @@
 use std::fs;
+use std::path::Path;
 use std::sync::Arc;
 
 use tokio::sync::RwLock;
@@ -25,6 +26,17 @@ impl RequestHandler {
     }
 }
 
+// reading a named pipe or a device may never end
+async fn read_regular_file(path: &Path) -> std::io::Result<Vec<u8>> {
+    if !tokio::fs::metadata(path).await?.is_file() {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "not a regular file",
+        ));
+    }
+    tokio::fs::read(path).await
+}
+
 #[tower_lsp::async_trait]
 impl LanguageServer for RequestHandler {
     async fn initialize(
@@ -78,7 +90,7 @@ impl LanguageServer for RequestHandler {
             None if self.documents.read().await.contains_key(&uri) => {}
             None => {
                 if let Ok(path) = uri.to_file_path() {
-                    if let Ok(text) = tokio::fs::read(path).await {
+                    if let Ok(text) = read_regular_file(&path).await {
                         self.documents.write().await.entry(uri).or_insert(text);
                     }
                 }
@@ -128,7 +140,7 @@ impl LanguageServer for RequestHandler {
                         while let Ok(Some(entry)) = files.next_entry().await {
                             match entry.path().extension() {
                                 Some(extension) if (extension == "hddl" || extension == "pddl") => {
-                                    let content = match tokio::fs::read(entry.path()).await {
+                                    let content = match read_regular_file(&entry.path()).await {
                                         Ok(content) => content,
                                         // the domain cannot be an unreadable file
                                         Err(_) => continue,
-- 
2.43.0


From 500fab5c9a87bb8498629885a65a2bc491e542d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:32 +0000
Subject: [PATCH 36/36] fix: show an error when the working directory is gone
 instead of panicking

---
 src/bin/hddl_analyzer/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/hddl_analyzer/main.rs b/src/bin/hddl_analyzer/main.rs
index d618c03..86c4a6f 100644
--- a/src/bin/hddl_analyzer/main.rs
+++ b/src/bin/hddl_analyzer/main.rs
@@ -97,7 +97,7 @@ pub fn main() {
                                                 println!("{}", output_string);
                                             }
                                             Some(output_file) => {
-                                                let mut output_path = env::current_dir().unwrap();
+                                                let mut output_path = env::current_dir().unwrap_or_default();
                                                 output_path.push(&output_file);
                                                 match fs::write(&output_path, output_string) {
                                                     Ok(_) => {
@@ -131,7 +131,7 @@ pub fn main() {
                                         println!("{}", output_string);
                                     }
                                     Some(output_file) => {
-                                        let mut output_path = env::current_dir().unwrap();
+                                        let mut output_path = env::current_dir().unwrap_or_default();
                                         output_path.push(&output_file);
                                         match fs::write(&output_path, output_string) {
                                             Ok(_) => {
-- 
2.43.0


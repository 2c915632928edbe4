From e806786901e6e35623c82bb2830fff31c5103d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 01/40] fix: '\r\n' newline consumed the first character of the
 next line

---
 src/parser/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b90aaa..8695b0d 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -182,13 +182,15 @@ impl Tokenizer for PythonCoreTokenizer {
                 /* Handle newline as token or trivia as needed */
                 match self.source_buffer.peek_three_chars() {
                     ( '\r', '\n', _  ) => {
-                        for _i in 1 ..= 3 { let _ = self.source_buffer.advance(); }
+                        for _i in 1 ..= 2 { let _ = self.source_buffer.advance(); }
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
                             trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
                             continue 'outer;
                         }
                         else {
+                            /* At the very end of the source, positions are still reported one past the last character */
+                            if self.source_buffer.get_position() >= self.source_buffer.count() { let _ = self.source_buffer.advance(); }
                             return Ok(Box::new(Token::Newline(
                                 self.token_start_position,
                                 self.source_buffer.get_position(),
-- 
2.43.0


From 9513205864ee98b23097f11375d9efd12ddb9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 02/40] fix: number starting with '0' swallowed the character
 after the '0'

---
 src/parser/tokenizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 8695b0d..f87f5ec 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -743,9 +743,15 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {
                         let mut non_zero = false;
-                        buffer.push( self.source_buffer.get_char() );
-                        let _ = self.source_buffer.advance();
                         while   match self.source_buffer.get_char() {
+                            '_' => {
+                                buffer.push( self.source_buffer.get_char() );
+                                let _ = self.source_buffer.advance();
+                                match self.source_buffer.get_char() {
+                                    '0'..='9' => true,
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit after '_'!", &self.get_position()) )
+                                }
+                            },
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
-- 
2.43.0


From cd363f3baa852da2071e313bf1ff7a95122900dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 03/40] fix: exponent without any digits was taken as part of a
 number

---
 src/parser/tokenizer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index f87f5ec..978248a 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -793,8 +793,8 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
-                        match self.source_buffer.get_char() {
-                            'e' | 'E' => {
+                        match self.source_buffer.peek_three_chars() {
+                            ( 'e' | 'E', '0' ..= '9', _ ) | ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                                 non_zero = false;
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
@@ -863,8 +863,8 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => false
                 } {};
-                match self.source_buffer.get_char() {
-                    'e' | 'E' => {
+                match self.source_buffer.peek_three_chars() {
+                    ( 'e' | 'E', '0' ..= '9', _ ) | ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                         buffer.push( self.source_buffer.get_char() );
                         let _ = self.source_buffer.advance();
                         match self.source_buffer.get_char() {
@@ -948,8 +948,8 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {}
                 }
-                match &self.source_buffer.get_char() {
-                    'e' | 'E' => {
+                match self.source_buffer.peek_three_chars() {
+                    ( 'e' | 'E', '0' ..= '9', _ ) | ( 'e' | 'E', '+' | '-', '0' ..= '9' ) => {
                         buffer.push( self.source_buffer.get_char() );
                         let _ = self.source_buffer.advance();
                         match self.source_buffer.get_char() {
-- 
2.43.0


From e00b024d00e8afb01c8a418d437abbc665d6e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 04/40] fix: backslash escapes were not honoured inside string
 literals

---
 src/parser/tokenizer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 978248a..b2ebb84 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1018,6 +1018,10 @@ impl Tokenizer for PythonCoreTokenizer {
                     ( '\0', _ , _  ) => {
                         return Err("MORE DATA!".to_string())
                     },
+                    ( '\\', b, _  ) if b != '\0' => { /* A character after a backslash never ends the string */
+                        for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     ( '\r', '\n', _  ) => {
                         for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         true
@@ -1045,6 +1049,11 @@ impl Tokenizer for PythonCoreTokenizer {
                 buffer.push(self.source_buffer.get_char());
                 let _ = self.source_buffer.advance();
                 while match self.source_buffer.get_char() {
+                    '\\' => { /* A character or newline after a backslash never ends the string */
+                        let count = match self.source_buffer.peek_three_chars() { ( _ , '\r', '\n' ) => 3, ( _ , '\0', _ ) => 1, _ => 2 };
+                        for _i in 1 ..= count { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
                     _ => {
                         if self.source_buffer.get_char() == quote {
-- 
2.43.0


From 81824476ffa3fee6c00410367b4fada00628cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 05/40] fix: bytes literal prefixes were not recognised

---
 src/parser/tokenizer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index b2ebb84..bf96eee 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -628,7 +628,17 @@ impl Tokenizer for PythonCoreTokenizer {
                     "rf" |
                     "rF" |
                     "Rf" |
-                    "RF" if self.source_buffer.get_char() == '\'' || self.source_buffer.get_char() == '"' => {
+                    "RF" |
+                    "b" |
+                    "B" |
+                    "br" |
+                    "Br" |
+                    "bR" |
+                    "BR" |
+                    "rb" |
+                    "rB" |
+                    "Rb" |
+                    "RB" if self.source_buffer.get_char() == '\'' || self.source_buffer.get_char() == '"' => {
                         match self.source_buffer.peek_three_chars() {
                             ( '\'', '\'', '\'' ) |
                             ( '"', '"', '"' ) => {
-- 
2.43.0


From 73c64f9d30f36372aff1a758162e68b9bfa3138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 06/40] fix: newline trivia recorded '\r\n' for every kind of
 line ending

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index bf96eee..675cfbf 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -204,7 +204,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', ' ') ) );
                             continue 'outer;
                         }
                         else {
@@ -221,7 +221,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\n', ' ') ) );
                             continue 'outer;
                         }
                         else {
-- 
2.43.0


From 8cf090c80c19de2461a7925aeacb251539a55fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 07/40] fix: indentation was ignored on a line following a
 blank or comment line

---
 src/parser/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 675cfbf..8081b5d 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -50,6 +50,7 @@ impl Tokenizer for PythonCoreTokenizer {
             match &self.is_at_beginning_of_line {
                 true => {
                     self.is_at_beginning_of_line = false;
+                    is_blank_line = false;
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
@@ -110,11 +111,11 @@ impl Tokenizer for PythonCoreTokenizer {
             match self.pending {
                 _ if self.pending < 0 => {
                     self.pending += 1;
-                    return Ok( Box::new( Token::Dedent(None) ) )
+                    return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ if self.pending > 0 => {
                     self.pending -= 1;
-                    return Ok( Box::new( Token::Indent(None) ) )
+                    return Ok( Box::new( Token::Indent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ => { }
             }
-- 
2.43.0


From b55de7ea1ed66a66bfee57171baffb1805c96f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 08/40] fix: dedent to a column matching no enclosing block was
 accepted

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 8081b5d..d7f6334 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -98,7 +98,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 self.indent_stack.pop();
                                 self.pending -= 1;
                             }
-                            if self.indent_stack.is_empty() || col < match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
+                            if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
                                 return Err("Inconsistent indentation level in block control!".to_string())
                             }
                         }
-- 
2.43.0


From 1c17337956410cd48b9f217d09d4e8967208622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 09/40] fix: last line without a newline and blocks open at end
 of source were never closed

---
 src/parser/tokenizer.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index d7f6334..2aef38e 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -11,7 +11,8 @@ pub struct PythonCoreTokenizer {
     tab_size: u32,
     is_interactive: bool,
     pending: i32,
-    indent_stack: Vec<u32>
+    indent_stack: Vec<u32>,
+    is_line_open: bool
 }
 
 
@@ -33,7 +34,8 @@ impl Tokenizer for PythonCoreTokenizer {
             tab_size: 4,
             is_interactive: false,
             pending: 0,
-            indent_stack: { let mut stack : Vec<u32> = Vec::new(); stack.push(0); stack }
+            indent_stack: { let mut stack : Vec<u32> = Vec::new(); stack.push(0); stack },
+            is_line_open: false
         }
     }
 
@@ -51,6 +53,7 @@ impl Tokenizer for PythonCoreTokenizer {
                 true => {
                     self.is_at_beginning_of_line = false;
                     is_blank_line = false;
+                    if self.parenthesis.is_empty() { self.is_line_open = false }
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
@@ -159,8 +162,8 @@ impl Tokenizer for PythonCoreTokenizer {
                                     }
                                 } {};
                         match buffer.as_str().starts_with("# type:") {
-                            true => return Ok(Box::new(Token::TypeComment(self.token_start_position, self.source_buffer.get_position(),
-                                                                          match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer)))),
+                            true => { self.is_line_open = true; return Ok(Box::new(Token::TypeComment(self.token_start_position, self.source_buffer.get_position(),
+                                                                          match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, Box::new(buffer)))) },
                             _ => {
                                 trivia_collector.push(Box::new( Trivia::Comment(self.token_start_position, self.source_buffer.get_position(), Box::new(buffer)) ) );
                             }
@@ -173,6 +176,24 @@ impl Tokenizer for PythonCoreTokenizer {
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
                     '\0' => {
+                        if self.parenthesis.is_empty() {
+                            /* Last line of source is not terminated by a newline */
+                            if self.is_line_open {
+                                self.is_line_open = false;
+                                self.is_at_beginning_of_line = true;
+                                return Ok(Box::new(Token::Newline(self.token_start_position, self.source_buffer.get_position(),
+                                                                  match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }, ' ', ' ')))
+                            }
+                            /* Blocks still open at end of source */
+                            while self.indent_stack.len() > 1 {
+                                self.indent_stack.pop();
+                                self.pending -= 1;
+                            }
+                            if self.pending < 0 {
+                                self.pending += 1;
+                                return Ok(Box::new(Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) })))
+                            }
+                        }
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
@@ -266,6 +287,7 @@ impl Tokenizer for PythonCoreTokenizer {
         }
 
         self.token_start_position = self.source_buffer.get_position();
+        self.is_line_open = true;
 
         /* Handling all other valid tokens */
         match self.source_buffer.peek_three_chars() {
-- 
2.43.0


From 8321f1efdf3c8d3f028d6a2a38ed3e34500fd2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 10/40] fix: decorator never consumed its newline, so nothing
 could follow it

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 135df0a..9720da1 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -250,6 +250,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s5 {
                                     Token::Newline(..) => {
                                         let symbol4 = s5;
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::Decorator(start_pos, self.lexer.get_position(), symbol1, left_node,  symbol2, right_node, symbol3, symbol4) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end of file in function input!", start_pos))
-- 
2.43.0


From fbb9d6b521a4f2811eb691875f1fc41622f8454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 11/40] fix: function definition without a parameter list was
 accepted

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 9720da1..ee1e2a0 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -360,7 +360,7 @@ impl Blocks for PythonCoreParser {
                                                     Token::PyLeftParen(..) => {
                                                         Some(self.parse_blocks_parameters()?)
                                                     },
-                                                    _ => None
+                                                    _ => return Err(format!("SyntaxError at {}: Expecting '(' in function statement!", start_pos))
                                                 }
                                             },
                                             _ => return Err(format!("SyntaxError at {}: Expecting 'def' in function statement!", start_pos))
-- 
2.43.0


From ceec60846eb82fa5ef5112ec8c61415361eae54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 12/40] fix: class definition took lambda parameters instead of
 arguments as its bases

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ee1e2a0..ef6ce31 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -630,7 +630,7 @@ impl Blocks for PythonCoreParser {
                                                             Ok(s5) => {
                                                                 match &*s5 {
                                                                     Token::PyRightParen(..) => None,
-                                                                    _ => Some(self.parse_expressions_var_args_list()?)
+                                                                    _ => Some(self.parse_expressions_arglist()?)
                                                                 }
                                                             },
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in class statement!", start_pos))
-- 
2.43.0


From 72512871b79d9274c7be8cf69b9519169ae18e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 13/40] fix: compound statement was never accepted as
 interactive input

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index ef6ce31..38ad6da 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -124,6 +124,7 @@ impl Blocks for PythonCoreParser {
                                         let symbol = Some( s2 );
                                         Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, symbol) ))
                                     },
+                                    Token::EOF(..) => Ok(Box::new( ASTNode::SingleInput(start_pos, self.lexer.get_position(), right_node, None) )),
                                     _ => Err(format!("SyntaxError at {}: Expecting Newline after compound statement in single input!", start_pos))
                                 }
                             },
-- 
2.43.0


From bdacd9be424c19a805acfeb00ef85ce9c5b7223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 14/40] fix: statement starting with 'match' panicked

---
 src/parser/patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 3e7eecd..c8fabee 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -9,7 +9,7 @@ pub trait Patterns {
 
 impl Patterns for PythonCoreParser {
     fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        todo!()
+        Err("SyntaxError: Match statement is not supported!".to_string())
     }
 }
 
-- 
2.43.0


From b83d6c0ff7306397af119e748109414486eda988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 15/40] fix: import statement recursed into itself without end

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc937b5..678a90d 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -716,7 +716,7 @@ impl Statements for PythonCoreParser {
             Ok(s) => {
                 match &*s {
                     Token::PyImport(..) => {
-                        self.parse_statements_import_stmt()
+                        self.parse_statements_import_name()
                     },
                     Token::PyFrom(..) => {
                         self.parse_statements_import_from()
-- 
2.43.0


From 2ed88000fd26f575aca9212e6c7de759cdedb13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 16/40] fix: 'async def' was parsed as a class definition

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 678a90d..b5425fa 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1228,7 +1228,7 @@ impl Statements for PythonCoreParser {
                             Ok(s) => {
                                 match &*s {
                                     Token::PyDef(..) => {
-                                        let right_node = self.parse_blocks_class_def()?;
+                                        let right_node = self.parse_blocks_func_def()?;
                                         Ok(Box::new( ASTNode::AsyncStmt(start_pos, self.lexer.get_position(), symbol, right_node) ))
                                     },
                                     Token::PyWith(..) => {
-- 
2.43.0


From ae1315f7f7bd0ba5c6b78e54bc62bb2b5cf62923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 17/40] fix: message of an assert statement was expected after
 'from' instead of ','

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b5425fa..77af37e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1156,7 +1156,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyFrom(..) => {
+                                    Token::PyComa(..) => {
                                         let symbol2 = s2;
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_test()?;
-- 
2.43.0


From d04f50f76799a370e868f52af2fa85b19e413a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 18/40] fix: 'as' item of a with statement was reported as an
 except statement

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 77af37e..e5683cf 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1715,7 +1715,7 @@ impl Statements for PythonCoreParser {
                         let symbol = s;
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
+                        Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, Some( (symbol, right_node) )) ))
                     },
                     _ => {
                         Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, None) ))
-- 
2.43.0


From 72179baf5238cd601fad1dc8bb09999bc50e5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 19/40] fix: assignment expression was rejected as condition of
 if, elif and while

---
 src/parser/statements.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e5683cf..5ca9f50 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1260,7 +1260,7 @@ impl Statements for PythonCoreParser {
                     Token::PyIf(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1319,7 +1319,7 @@ impl Statements for PythonCoreParser {
                     Token::PyElif(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1381,7 +1381,7 @@ impl Statements for PythonCoreParser {
                     Token::PyWhile(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        let left_node = self.parse_expressions_test()?;
+                        let left_node = self.parse_expressions_named_expression()?;
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-- 
2.43.0


From 1ee8b367ed902c42b3eb3bb43511d2112d581a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 20/40] fix: nested try statement changed the 'except' or
 'except*' kind of the enclosing one

---
 src/parser/statements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5ca9f50..012bbeb 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1503,6 +1503,7 @@ impl Statements for PythonCoreParser {
                                         let symbol2 = s2;
                                         let _ = self.advance();
                                         let left_node = self.parse_statements_suite()?;
+                                        self.except_status = ET::ExceptNone; // Nested try statements must not leave their kind behind
                                         match self.symbol.clone() {
                                             Ok(s3) => {
                                                 match &*s3 {
@@ -1735,7 +1736,9 @@ impl Statements for PythonCoreParser {
                     Token::PyColon(..) => {
                         let symbol = s;
                         let _ = self.advance();
+                        let status = std::mem::replace(&mut self.except_status, ET::ExceptNone);
                         let right_node = self.parse_statements_suite()?;
+                        self.except_status = status;
                         Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
                     },
                     _ => Err(format!("SyntaxError at {}: Expecting ':' in except statement!", start_pos))
-- 
2.43.0


From 11b66b590e22c5b9ec8bb432c7f7216618b0460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 21/40] fix: 'except*' without an expression was accepted

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 012bbeb..89f69eb 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1788,7 +1788,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyColon(..) => {
+                                    Token::PyColon(..) if symbol_mul.is_none() => {
                                         Ok(Box::new( ASTNode::ExceptClauseStmt(start_pos, self.lexer.get_position(), symbol1, symbol_mul, None) ))
                                     },
                                     _ => {
-- 
2.43.0


From 1565e9f0811000bc15a1fa336e75ddd744bf9e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 22/40] fix: trailing comma in a parenthesised import list was
 rejected

---
 src/parser/statements.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 89f69eb..3797abe 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -941,8 +941,13 @@ impl Statements for PythonCoreParser {
                         Token::PyComa(..) => {
                             separators_list.push( s );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_statements_import_as_name()? );
-                            true
+                            match &self.symbol {
+                                Ok(s2) if matches!(&**s2, Token::PyRightParen(..)) => false, // Trailing comma inside parenthesis
+                                _ => {
+                                    nodes_list.push( self.parse_statements_import_as_name()? );
+                                    true
+                                }
+                            }
                         },
                         _ => false
                     }
-- 
2.43.0


From f326c4542666792fe8ad84baaff4f98a880650ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 23/40] fix: empty dictionary was rejected

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 894b7f4..8855f54 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -185,7 +185,7 @@ impl Expressions for PythonCoreParser {
                                                     _ => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                                 }
                                             },
-                                            None => Err(format!("SyntaxError at {}: Expecting dictionary/set in atom expression!", start_pos))
+                                            None => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                         }
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end marker in dictionary/set atom expression!", start_pos))
-- 
2.43.0


From d9eefc4deae1deb154cd9621db0d5a3ec3c8cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 24/40] fix: target list took the 'in' of a for loop or
 comprehension as a comparison

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8855f54..b94e1f8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -999,7 +999,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         nodes_list.push(self.parse_expressions_star_expr()?)
                     },
-                    _ => nodes_list.push(self.parse_expressions_named_expression()?)
+                    _ => nodes_list.push(self.parse_expressions_expr()?)
                 }
             },
             _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
@@ -1022,7 +1022,7 @@ impl Expressions for PythonCoreParser {
                                             true
                                         },
                                         _ => {
-                                            nodes_list.push(self.parse_expressions_named_expression()?);
+                                            nodes_list.push(self.parse_expressions_expr()?);
                                             true
                                         }
                                     }
-- 
2.43.0


From 6a21d9aa17ff7023bf0529e5b1617c7a5926a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 25/40] fix: trailing comma in the targets of a del statement
 was rejected

---
 src/parser/expressions.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index b94e1f8..5f04293 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1015,7 +1015,10 @@ impl Expressions for PythonCoreParser {
                             match &self.symbol {
                                 Ok(s2) => {
                                     match &(**s2) {
-                                        Token::PyIn(..) => false,
+                                        Token::PyIn(..) |
+                                        Token::Newline(..) |
+                                        Token::PySemiColon(..) |
+                                        Token::EOF(..) => false,
                                         Token::PyComa(..) => return Err(format!("SyntaxError at {}: Missing elements between two ',' in list expression!", self.lexer.get_position())),
                                         Token::PyMul(..) => {
                                             nodes_list.push(self.parse_expressions_star_expr()?);
-- 
2.43.0


From e894ffe62fcff9b9591eca5777fa67357b599357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 26/40] fix: call arguments were parsed as subscripts

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 5f04293..464998b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -841,7 +841,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s2) => {
                                 match &(**s2) {
                                     Token::PyRightParen(..) => { },
-                                    _ => right = Some(self.parse_expressions_subscript_list()?)
+                                    _ => right = Some(self.parse_expressions_arglist()?)
                                 }
                             },
                             _ => return Err(format!("Syntax Error at {} - Expecting symbol in trailer expression!", self.lexer.get_position()))
-- 
2.43.0


From 3b0d2b25b6e91dcd22678d07bf7152087e4861dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 27/40] fix: lambda as body of a lambda inside a comprehension
 condition was rejected

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 464998b..416a125 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -680,7 +680,7 @@ impl Expressions for PythonCoreParser {
                                         Ok(Box::new(ASTNode::Lambda(start_pos, self.lexer.get_position(), symbol1, left, symbol2, right )))
                                     },
                                     _ => {
-                                        let right = self.parse_expressions_or_test()?;
+                                        let right = self.parse_expressions_no_cond_test()?;
                                         Ok(Box::new(ASTNode::Lambda(start_pos, self.lexer.get_position(), symbol1, left, symbol2, right )))
                                     }
                                 }
-- 
2.43.0


From f58ee166da637a20b30b0920a2d249b8dced83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 28/40] fix: trailing comma in a tuple or list was rejected

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 416a125..9af2e00 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -802,6 +802,8 @@ impl Expressions for PythonCoreParser {
                                         match &self.symbol {
                                             Ok(s4) => {
                                                 match &(**s4) {
+                                                    Token::PyRightParen(..) |
+                                                    Token::PyRightBracket(..) => {},
                                                     Token::PyMul(..) => {
                                                         nodes_list.push(self.parse_expressions_star_expr()?)
                                                     },
-- 
2.43.0


From 71ff1057909e39fde16175ba2951fc084441d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 29/40] fix: trailing comma in a subscript was rejected

---
 src/parser/expressions.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 9af2e00..d027cd7 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -915,8 +915,13 @@ impl Expressions for PythonCoreParser {
                             let symbol1 = (**s).clone();
                             separators_list.push( Box::new(symbol1) );
                             let _ = self.advance();
-                            nodes_list.push( self.parse_expressions_subscript()? );
-                            true
+                            match &self.symbol {
+                                Ok(s2) if matches!(&**s2, Token::PyRightBracket(..)) => false, // Trailing comma
+                                _ => {
+                                    nodes_list.push( self.parse_expressions_subscript()? );
+                                    true
+                                }
+                            }
                         },
                         _ => false
                     }
-- 
2.43.0


From a563c1a86ffdef089b852ac54cc24600eb3443cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 30/40] fix: trailing comma of an expression list was rejected
 before '=', ':', ')' and type comment

---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index d027cd7..a562670 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1070,6 +1070,9 @@ impl Expressions for PythonCoreParser {
                             match &self.symbol {
                                 Ok(s2) => {
                                     match &(**s2) {
+                                        Token::PyAssign(..) |
+                                        Token::PyColon(..) |
+                                        Token::TypeComment(..) |
                                         Token::Newline(..) |
                                         Token::PySemiColon(..) |
                                         Token::EOF(..) => false,
@@ -1515,6 +1518,8 @@ impl Expressions for PythonCoreParser {
                                         Token::PyBitOrAssign( .. ) |
                                         Token::PyBitXorAssign( .. ) |
                                         Token::PyAssign( .. ) |
+                                        Token::PyRightParen( .. ) |
+                                        Token::TypeComment( .. ) |
                                         Token::PySemiColon( .. ) |
                                         Token::Newline( .. ) |
                                         Token::EOF( .. ) |
-- 
2.43.0


From 664b5b7cbf078c3eca96cc4d646de40adb7d008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 31/40] fix: slice without a step consumed the token following
 its second part

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a562670..258f23e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -967,7 +967,7 @@ impl Expressions for PythonCoreParser {
                         };
                         match &self.symbol {
                             Ok(s3) => {
-                                match &**s2{
+                                match &**s3 {
                                     Token::PyColon(..) => {
                                         symbol2 = Some(Box::new((**s3).clone()));
                                         let _ = self.advance();
-- 
2.43.0


From aca6cb872dc9c7928228c8daee72ed2f83a2e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 32/40] fix: slice with an omitted part was rejected before ','

---
 src/parser/expressions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 258f23e..858dbe7 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -959,6 +959,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s3) => {
                                 match &**s3 {
                                     Token::PyRightBracket(..) |
+                                    Token::PyComa(..) |
                                     Token::PyColon(..) => { },
                                     _ => second_node = Some(self.parse_expressions_test()?)
                                 }
@@ -975,6 +976,7 @@ impl Expressions for PythonCoreParser {
                                             Ok(s4) => {
                                                 match &**s4 {
                                                     Token::PyRightBracket(..) |
+                                                    Token::PyComa(..) |
                                                     Token::PyColon(..) => { },
                                                     _ => third_node = Some(self.parse_expressions_test()?)
                                                 }
-- 
2.43.0


From 0cd9b2d4c651cf71210e96e246ecf508969f9ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:21 +0000
Subject: [PATCH 33/40] fix: dictionary with more than two entries was rejected

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 858dbe7..3eafe61 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1191,7 +1191,7 @@ impl Expressions for PythonCoreParser {
                                         },
                                         _ => return Err(format!("SyntaxError at {}: Expecting symbol in argument list expression!", self.lexer.get_position()))
                                     };
-                                    false
+                                    true
                                 },
                                 _ => false
                             }
-- 
2.43.0


From 8d801819c4a1f1660642a5e65000f37aa8e220a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 34/40] fix: dictionary and set entries after the first started
 at the first entry

---
 src/parser/expressions.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3eafe61..e68aece 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1157,6 +1157,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let entry_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1166,7 +1167,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
@@ -1178,7 +1179,7 @@ impl Expressions for PythonCoreParser {
                                                                     let symbol3 = (**s3).clone();
                                                                     let _ = self.advance();
                                                                     let right_node = self.parse_expressions_test()?;
-                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(start_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
+                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(entry_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
                                                                     true
                                                                 },
                                                                 _ => return Err(format!("SyntaxError at {}: Expecting ':' in dictionary entry expression!", self.lexer.get_position()))
@@ -1208,6 +1209,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let entry_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1217,7 +1219,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::MulSet(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::MulSet(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
-- 
2.43.0


From 40d2d7f37f0d1b6e95abbad8227f0b51ddc1feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 35/40] fix: dictionary and set comprehensions were rejected

---
 src/parser/expressions.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e68aece..f015c6c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1147,6 +1147,23 @@ impl Expressions for PythonCoreParser {
             },
             _ => return Err(format!("Syntax Error at {} - Expecting symbol in dictionary/set expression!", self.lexer.get_position()))
         }
+        match &self.symbol {
+            Ok(s) => {
+                match &**s {
+                    Token::PyFor(..) |
+                    Token::PyAsync(..) => {
+                        nodes_list.push( self.parse_expressions_comp_for()? );
+                        nodes_list.reverse();
+                        return match is_dictionary {
+                            true => Ok(Box::new( ASTNode::DictionaryContainer(start_pos, self.lexer.get_position(), nodes_list, separators_list) )),
+                            _ => Ok(Box::new( ASTNode::SetContainer(start_pos, self.lexer.get_position(), nodes_list, separators_list) ))
+                        }
+                    },
+                    _ => { }
+                }
+            },
+            _ => return Err(format!("Syntax Error at {} - Expecting symbol in dictionary/set expression!", self.lexer.get_position()))
+        }
         match is_dictionary {
             true => {
                 while
-- 
2.43.0


From 24691abdcc139892b7f1fef6d38ae89799a13202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 36/40] fix: default value was accepted for '*' and '**'
 parameters of a lambda

---
 src/parser/expressions.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f015c6c..13a71e4 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1591,7 +1591,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                        mul_node = Some( self.parse_expressions_vfp_def()? );
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1605,7 +1605,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s3.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s4) => {
                                                                     match &**s4 {
@@ -1638,7 +1638,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyPower(..) => {
                         power_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        power_node = Some( self.parse_expressions_var_args_assignments()? );
+                        power_node = Some( self.parse_expressions_vfp_def()? );
                         match &self.symbol {
                             Ok(s2) => {
                                 match &**s2 {
@@ -1703,7 +1703,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1717,7 +1717,7 @@ impl Expressions for PythonCoreParser {
                                                                                                             Token::PyPower(..) => {
                                                                                                                 power_symbol = Some( s31.clone() );
                                                                                                                 let _ = self.advance();
-                                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                                 match &self.symbol {
                                                                                                                     Ok(s32) => {
                                                                                                                         match &**s32 {
@@ -1751,7 +1751,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyPower(..)) => {
                                                                             power_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                                             match &self.symbol {
                                                                                 Ok(s21) => {
                                                                                     match &**s21 {
@@ -1777,7 +1777,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
@@ -1791,7 +1791,7 @@ impl Expressions for PythonCoreParser {
                                                                                             Token::PyPower(..) => {
                                                                                                 power_symbol = Some( s9.clone() );
                                                                                                 let _ = self.advance();
-                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                 match &self.symbol {
                                                                                                     Ok(s10) => {
                                                                                                         match &**s10 {
@@ -1825,7 +1825,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s7) => {
                                                                     match &**s7 {
-- 
2.43.0


From 45b870b546f7fcf0f4cd3fe5767161661418f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 37/40] fix: bare '*' in the parameters of a lambda was
 rejected

---
 src/parser/expressions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 13a71e4..08bd1dd 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1591,7 +1591,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_vfp_def()? );
+                        mul_node = match &self.symbol { Ok(x) if matches!(&**x, Token::PyComa(..)) => None, _ => Some( self.parse_expressions_vfp_def()? ) };
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1703,7 +1703,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
+                                                                            mul_node = match &self.symbol { Ok(x) if matches!(&**x, Token::PyComa(..)) => None, _ => Some( self.parse_expressions_vfp_def()? ) };
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1777,7 +1777,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
+                                                            mul_node = match &self.symbol { Ok(x) if matches!(&**x, Token::PyComa(..)) => None, _ => Some( self.parse_expressions_vfp_def()? ) };
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
-- 
2.43.0


From 9bad6f80d969af801604654cc41ce39bbbfe8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 38/40] fix: trailing comma in the parameters of a lambda was
 rejected

---
 src/parser/expressions.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 08bd1dd..c03a3a0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1620,6 +1620,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
@@ -1682,6 +1683,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 coma_found = true;
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1732,6 +1734,7 @@ impl Expressions for PythonCoreParser {
                                                                                                                 }
                                                                                                                 false
                                                                                                             },
+                                                                                                            Token::PyColon(..) => false,
                                                                                                             _ => {
                                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                                 true
@@ -1806,6 +1809,7 @@ impl Expressions for PythonCoreParser {
                                                                                                 }
                                                                                                 false
                                                                                             },
+                                                                                            Token::PyColon(..) => false,
                                                                                             _ => {
                                                                                                 nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                                                                 true
@@ -1840,6 +1844,7 @@ impl Expressions for PythonCoreParser {
                                                             }
                                                             false
                                                         },
+                                                        Token::PyColon(..) => false,
                                                         _ => {
                                                             nodes_list.push( self.parse_expressions_var_args_assignments()? );
                                                             true
-- 
2.43.0


From 27f3b9272332100daadba11237e5dbc31b7f760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 39/40] fix: whitespace at the very end of source was taken as
 indentation

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 2aef38e..19a189d 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -70,7 +70,7 @@ impl Tokenizer for PythonCoreTokenizer {
                     };
 
                     match self.source_buffer.get_char() {
-                        '#' | '\r' | '\n' | '\\' => {
+                        '#' | '\r' | '\n' | '\\' | '\0' => {
                             if col == 0 && self.is_interactive {
                                 match self.source_buffer.get_char() {
                                     '\r' | '\n' => {
-- 
2.43.0


From 6917fb4ba54c8f8d8445851446dc77d13cd2aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 40/40] fix: a NUL character in the source ended it silently

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 19a189d..e6ba33c 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -175,7 +175,7 @@ impl Tokenizer for PythonCoreTokenizer {
 
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
-                    '\0' => {
+                    '\0' if self.source_buffer.get_position() >= self.source_buffer.count() => {
                         if self.parenthesis.is_empty() {
                             /* Last line of source is not terminated by a newline */
                             if self.is_line_open {
-- 
2.43.0


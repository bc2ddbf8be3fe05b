From af8bb11499055bfe74a1f9906b1e45cd41d1e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:58 +0000
Subject: [PATCH 01/11] fix: count characters, not bytes, when checking full
 consumption and building error lines

Any non-ASCII input was rejected as 'not consumed full input', or panicked slicing
the text by a character index.
---
 src/lib.rs        | 2 +-
 src/parser/mod.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484d1f3..a6d42a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ fn parse_with_debug(
     } else {
         parser::expression::parse(parser::Status::init(s, &rules))?
     };
-    match (st.pos.n == s.len(), st.potential_error.clone()) {
+    match (st.it_parsing.as_str().is_empty(), st.potential_error.clone()) {
         (true, _) => Ok(ast),
         (false, Some(e)) => Err(e),
         (false, None) => Err(parser::Error::from_status_normal(
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85c773b..6d018bf 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -129,6 +129,13 @@ impl<'a> Status<'a> {
             potential_error: None,
         }
     }
+    /// content already parsed of current line
+    fn parsed_line(&self) -> &'a str {
+        let parsed = self.text2parse.len() - self.it_parsing.as_str().len();
+        let parsed = &self.text2parse[..parsed];
+        let start_line = parsed.rfind('\n').map_or(0, |nl| nl + 1);
+        &parsed[start_line..]
+    }
     pub(crate) fn push_rule(mut self, on_node: &str) -> Self {
         self.walking_rules.push(on_node.to_string());
         self
@@ -163,7 +170,7 @@ impl Error {
         Error {
             pos: status.pos.clone(),
             descr: descr.to_owned(),
-            line_before: status.text2parse[status.pos.start_line..status.pos.n].to_string(),
+            line_before: status.parsed_line().to_string(),
             line_after: status
                 .it_parsing
                 .clone()
-- 
2.43.0


From 3cda843bf65ae115fdf48577e8004d81856b4d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 02/11] fix: repeat at most 0 times when the maximum is 0

The maximum was only checked after an iteration, against counter + 1, so
rep!(e, 0, 0) repeated without limit.
---
 src/parser/expression/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 00ab4d9..c5cb4d7 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -300,6 +300,10 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
         None => false,
     };
 
+    if let Some(NRep(0)) = rep_info.max {
+        return Ok((status, vec![]));
+    }
+
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-- 
2.43.0


From d196f5511d17bc24d3b3af43feb6db6e480530cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 03/11] fix: stop repeating an expression that succeeds
 consuming nothing

('a'*)* and similar repetitions of an expression matching the empty string never
finished. Once the minimum is reached, the first iteration with no progress is
the last one.
---
 src/parser/expression/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index c5cb4d7..83b2632 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -307,7 +307,13 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-        match (try_parse, big_min_bound(acc.1), touch_max_bound(acc.1)) {
+        //  an iteration consuming nothing could be repeated forever
+        let no_progress = match try_parse {
+            Ok((ref st, _)) => st.pos.n == acc.0.pos.n && big_min_bound(acc.1 + 1),
+            Err(_) => false,
+        };
+        let last = no_progress || touch_max_bound(acc.1);
+        match (try_parse, big_min_bound(acc.1), last) {
             (Err(e), true, _) => {
                 if e.priority == ErrPriority::Critical {
                     TailCall::Return(Err(e))
-- 
2.43.0


From 1b6c60ec2570e4d9ecf06f1a3da2d629a128780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 04/11] fix: matching the end of file produces an EOF node

Atom::EOF added a Val("EOF") to the AST, a text that is not on the input, and
Node::EOF was never produced.
---
 src/parser/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/atom/mod.rs b/src/parser/atom/mod.rs
index cca195d..215fa67 100644
--- a/src/parser/atom/mod.rs
+++ b/src/parser/atom/mod.rs
@@ -155,7 +155,7 @@ fn parse_match<'a>(status: Status<'a>, match_rules: &MatchRules) -> Result<'a> {
 fn parse_eof(status: Status) -> Result {
     match status.get_char() {
         Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
-        Err(st) => ok!(st, "EOF"),
+        Err(st) => Ok((st, ast::Node::EOF)),
     }
 }
 
-- 
2.43.0


From 9310b14a9f81605c76b4f62f8455793f70e3f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 05/11] fix: keep the backslashes of not escaped literals as
 they are

A literal delimited by single quotes got each backslash doubled, so '\' matched
two backslashes. It compensated the code generator, which didn't escape them (and
generated invalid code for "\\"); now the generator writes escaped literals.
---
 src/peg/gcode.rs | 11 ++---------
 src/peg/mod.rs   |  2 +-
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 3c5eb83..b8adec5 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -83,16 +83,9 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 }
 
 fn atom2code(atom: &Atom) -> String {
-    let replace_esc = |s: String| {
-        s.replace("\n", r#"\n"#)
-            .replace("\r", r#"\r"#)
-            .replace("\t", r#"\t"#)
-            .replace(r#"""#, r#"\""#)
-    };
-
     match atom {
-        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s.to_string())),
-        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s.to_string())),
+        Atom::Literal(s) => format!("lit!({:?})", s),
+        Atom::Error(s) => format!("error!({:?})", s),
         Atom::Match(mrules) => match_rules2code(mrules),
         Atom::Dot => "dot!()".to_string(),
         Atom::EOF => "eof!()".to_string(),
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7089a61..116a2ba 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -790,7 +790,7 @@ fn consume_literal_no_esc(
         let (nodes, context) = consume_single_quote(nodes, context)?;
         let (val, nodes) = flat::consume_val(nodes)?;
 
-        let val = val.replace(r#"\"#, r#"\\"#);
+        let val = val.to_string();
         let vclone = val.clone();
         push_err!(&format!("l:({})", vclone), {
             let (nodes, context) = consume_single_quote(nodes, context)?;
-- 
2.43.0


From a94f77c1256118905d779cea45c1af9e6384e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 06/11] fix: generate valid code for any match expression

A match without ranges generated an ematch! that no macro arm accepts, and
quotes, backslashes or '"#' on the chars were written without escaping.
---
 src/peg/gcode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index b8adec5..fed5c50 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -96,14 +96,17 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
     fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
         match bounds.split_first() {
             Some(((f, t), rest)) => {
-                format!(", from '{}', to '{}' {}", f, t, bounds2code(acc, rest))
+                format!(", from {:?}, to {:?} {}", f, t, bounds2code(acc, rest))
             }
             None => acc,
         }
     }
 
+    if mrules.1.is_empty() {
+        return format!("ematch!(chlist {:?}, from2 vec![])", &mrules.0);
+    }
     format!(
-        r##"ematch!(chlist r#"{}"#  {})"##,
+        "ematch!(chlist {:?}  {})",
         &mrules.0,
         bounds2code(String::new(), &mrules.1)
     )
-- 
2.43.0


From 6c4fc6078c0bcb5b3cec8b2481136752ab063a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 07/11] fix: accept empty not escaped literals

'' is valid for the peg grammar, but rules_from_peg failed processing its AST
("" was accepted).
---
 src/peg/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 116a2ba..36b31de 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -788,7 +788,10 @@ fn consume_literal_no_esc(
 
     consuming_rule("lit_noesc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_single_quote(nodes, context)?;
-        let (val, nodes) = flat::consume_val(nodes)?;
+        let (val, nodes) = match flat::peek_first_node(nodes)? {
+            flat::Node::Val(_) => flat::consume_val(nodes)?,
+            _ => ("", nodes),
+        };
 
         let val = val.to_string();
         let vclone = val.clone();
-- 
2.43.0


From f2bf3b65863c2a2be697ef8b72429084fc07fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 08/11] fix: accept expressions after error(...) on a sequence

'a' error('x') 'b' is valid for the peg grammar, but rules_from_peg failed
processing its AST.
---
 src/peg/mod.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 36b31de..5e07ae1 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -505,16 +505,28 @@ fn consume_and(
             } else {
                 let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
                 let eov = eov.ipush(expr);
-                let next_node = flat::peek_first_node(nodes)?;
-
-                match (next_node, flat::get_nodename(next_node)) {
-                    (flat::Node::BeginRule(_), Ok("and")) => rec_consume_and(eov, nodes, context),
-                    _ => Ok((eov, nodes, context)),
-                }
+                consume_next_ands(eov, nodes, context)
             }
         })
     }
 
+    //  there can be more than one, an error finishes its own `and`
+    fn consume_next_ands(
+        eov: ExprOrVecExpr,
+        nodes: &[flat::Node],
+        context: Context,
+    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
+        let next_node = flat::peek_first_node(nodes)?;
+
+        match (next_node, flat::get_nodename(next_node)) {
+            (flat::Node::BeginRule(_), Ok("and")) => {
+                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
+                consume_next_ands(eov, nodes, context)
+            }
+            _ => Ok((eov, nodes, context)),
+        }
+    }
+
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
 
-- 
2.43.0


From 54a05f2a1a2718482e3720ecddf34b09641690ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 09/11] fix: let a line comment finish the last line of a rule

The comment consumed the end of line the rule needs, so the rule was rejected
unless it was followed by an empty line. Also a line comment at the end of the
input was rejected.
---
 src/peg/peg2code.rs | 2 +-
 src/peg/rules.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peg/peg2code.rs b/src/peg/peg2code.rs
index 638b6e0..dc3829e 100644
--- a/src/peg/peg2code.rs
+++ b/src/peg/peg2code.rs
@@ -106,7 +106,7 @@ fn text_peg2code() -> &'static str {
     comment         =   line_comment
                     /   mline_comment
 
-    line_comment    =   '//' (!eol .)*  eol
+    line_comment    =   '//' (!eol .)*
     mline_comment   =   '/*' (!'*/' .)* '*/'
     "#
 }
diff --git a/src/peg/rules.rs b/src/peg/rules.rs
index 5561a8b..ba9139e 100644
--- a/src/peg/rules.rs
+++ b/src/peg/rules.rs
@@ -20,7 +20,7 @@ pub(crate) fn parse_peg() -> parser::expression::SetOfRules {
        , r#"match"# => and!(lit!("["), or!(and!(ref_rule!(r#"mchars"#), rep!(ref_rule!(r#"mbetween"#), 0)), rep!(ref_rule!(r#"mbetween"#), 1)), lit!("]"))
        , r#"rep_or_neg"# => or!(and!(ref_rule!(r#"atom_or_par"#), rep!(or!(lit!("*"), lit!("+"), lit!("?")), 0, 1)), and!(lit!("!"), ref_rule!(r#"atom_or_par"#)))
        , r#"_eol"# => and!(rep!(or!(lit!(" "), ref_rule!(r#"comment"#)), 0), ref_rule!(r#"eol"#))
-       , r#"line_comment"# => and!(lit!("//"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0), ref_rule!(r#"eol"#))
+       , r#"line_comment"# => and!(lit!("//"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0))
        , r#"lit_noesc"# => and!(ref_rule!(r#"_'"#), rep!(and!(not!(ref_rule!(r#"_'"#)), dot!()), 0), ref_rule!(r#"_'"#))
        , r#"rule_name"# => and!(rep!(lit!("."), 0, 1), ref_rule!(r#"symbol"#), rep!(and!(lit!("."), ref_rule!(r#"symbol"#)), 0))
        , r#"_""# => lit!("\"")
-- 
2.43.0


From 578861d158bf2e13812e88bb7fea6243d4d20f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 10/11] fix: parse and translate long choices and sequences
 without nesting

Each alternative of a choice and each item of a sequence was nested in the
previous one, on the AST of the peg grammar and processing it. Less than a
thousand of them overflowed the stack, even on release mode.
---
 src/peg/mod.rs      | 90 +++++++++++++++++----------------------------
 src/peg/peg2code.rs |  4 +-
 src/peg/rules.rs    |  4 +-
 3 files changed, 37 insertions(+), 61 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 5e07ae1..65a3d6c 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -433,33 +433,27 @@ fn consume_or(
     nodes: &[flat::Node],
     context: Context,
 ) -> result::Result<(Expression, &[flat::Node], Context), Error> {
-    // or              =   and         ( _  '/'  _  or )?
-
-    fn rec_consume_or(
-        eov: ExprOrVecExpr,
-        nodes: &[flat::Node],
-        context: Context,
-    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
-        consuming_rule("or", nodes, context, |nodes, context| {
-            let (expr, nodes, context) = consume_and(nodes, context)?;
-            let eov = eov.ipush(expr);
-            let next_node = flat::peek_first_node(nodes)?;
-
-            match next_node {
-                flat::Node::Val(_) => {
-                    let nodes = flat::consume_this_value("/", nodes)?;
-                    rec_consume_or(eov, nodes, context)
-                }
-                _ => Ok((eov, nodes, context)),
-            }
-        })
+    // or              =   and         ( _  '/'  _  and )*
+
+    let consume_ands = |nodes, context| {
+        let (expr, mut nodes, mut context) = consume_and(nodes, context)?;
+        let mut eov = ExprOrVecExpr::None.ipush(expr);
+
+        while let flat::Node::Val(_) = flat::peek_first_node(nodes)? {
+            let next_nodes = flat::consume_this_value("/", nodes)?;
+            let (expr, next_nodes, next_context) = consume_and(next_nodes, context)?;
+            eov = eov.ipush(expr);
+            nodes = next_nodes;
+            context = next_context;
+        }
+        Ok((eov, nodes, context))
     };
 
     let build_or_expr = |vexpr| Expression::Or(expression::MultiExpr(vexpr));
     //  --------------------------
 
     push_err!("or:", {
-        let (eov, nodes, context) = rec_consume_or(ExprOrVecExpr::None, nodes, context)?;
+        let (eov, nodes, context) = consuming_rule("or", nodes, context, consume_ands)?;
 
         match eov {
             ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
@@ -490,47 +484,29 @@ fn consume_and(
     context: Context,
 ) -> result::Result<(Expression, &[flat::Node], Context), Error> {
     // and             =   error
-    //                 /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) and )*
-
-    fn rec_consume_and(
-        eov: ExprOrVecExpr,
-        nodes: &[flat::Node],
-        context: Context,
-    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
-        consuming_rule("and", nodes, context, |nodes, context| {
-            if "error" == flat::get_nodename(flat::peek_first_node(nodes)?)? {
-                let (expr, nodes, context) = consume_error(nodes, context)?;
-                let eov = eov.ipush(expr);
-                Ok((eov, nodes, context))
-            } else {
-                let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
-                let eov = eov.ipush(expr);
-                consume_next_ands(eov, nodes, context)
-            }
-        })
-    }
-
-    //  there can be more than one, an error finishes its own `and`
-    fn consume_next_ands(
-        eov: ExprOrVecExpr,
-        nodes: &[flat::Node],
-        context: Context,
-    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
-        let next_node = flat::peek_first_node(nodes)?;
-
-        match (next_node, flat::get_nodename(next_node)) {
-            (flat::Node::BeginRule(_), Ok("and")) => {
-                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
-                consume_next_ands(eov, nodes, context)
-            }
-            _ => Ok((eov, nodes, context)),
+    //                 /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) (error / rep_or_neg) )*
+
+    let consume_items = |nodes, context| {
+        let mut eov = ExprOrVecExpr::None;
+        let mut nodes: &[flat::Node] = nodes;
+        let mut context = context;
+
+        while let flat::Node::BeginRule(rule_name) = flat::peek_first_node(nodes)? {
+            let (expr, next_nodes, next_context) = match rule_name.as_ref() {
+                "error" => consume_error(nodes, context),
+                _ => consume_rep_or_neg(nodes, context),
+            }?;
+            eov = eov.ipush(expr);
+            nodes = next_nodes;
+            context = next_context;
         }
-    }
+        Ok((eov, nodes, context))
+    };
 
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
 
-    let (eov, nodes, context) = rec_consume_and(ExprOrVecExpr::None, nodes, context)?;
+    let (eov, nodes, context) = consuming_rule("and", nodes, context, consume_items)?;
     match eov {
         ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
         ExprOrVecExpr::Expr(e) => Ok((e, nodes, context)),
diff --git a/src/peg/peg2code.rs b/src/peg/peg2code.rs
index dc3829e..65a6898 100644
--- a/src/peg/peg2code.rs
+++ b/src/peg/peg2code.rs
@@ -41,11 +41,11 @@ fn text_peg2code() -> &'static str {
 
     expr            =   or
 
-    or              =   and         ( _  '/'  _  or )?
+    or              =   and         ( _  '/'  _  and )*
     error           =   'error' _  '('  _  literal  _  ')'
 
     and             =   error 
-                    /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) and )*
+                    /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) (error / rep_or_neg) )*
     _1              =   (' ' / eol)     //  this is the and separator
 
     rep_or_neg      =   atom_or_par ('*' / '+' / '?')?
diff --git a/src/peg/rules.rs b/src/peg/rules.rs
index ba9139e..ec4f1b3 100644
--- a/src/peg/rules.rs
+++ b/src/peg/rules.rs
@@ -7,14 +7,14 @@ pub(crate) fn parse_peg() -> parser::expression::SetOfRules {
        , r#"mline_comment"# => and!(lit!("/*"), rep!(and!(not!(lit!("*/")), dot!()), 0), lit!("*/"))
        , r#"_1"# => or!(lit!(" "), ref_rule!(r#"eol"#))
        , r#"comment"# => or!(ref_rule!(r#"line_comment"#), ref_rule!(r#"mline_comment"#))
-       , r#"or"# => and!(ref_rule!(r#"and"#), rep!(and!(ref_rule!(r#"_"#), lit!("/"), ref_rule!(r#"_"#), ref_rule!(r#"or"#)), 0, 1))
+       , r#"or"# => and!(ref_rule!(r#"and"#), rep!(and!(ref_rule!(r#"_"#), lit!("/"), ref_rule!(r#"_"#), ref_rule!(r#"and"#)), 0))
        , r#"literal"# => or!(ref_rule!(r#"lit_noesc"#), ref_rule!(r#"lit_esc"#))
        , r#"mod_name"# => ref_rule!(r#"symbol"#)
        , r#"esc_char"# => or!(lit!("\\r"), lit!("\\n"), lit!("\\t"), lit!("\\\\"), lit!("\\\""))
        , r#"atom"# => or!(ref_rule!(r#"literal"#), ref_rule!(r#"match"#), ref_rule!(r#"rule_name"#), ref_rule!(r#"dot"#))
        , r#"hex_char"# => and!(lit!("\\0x"), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ))
        , r#"parenth"# => and!(lit!("("), ref_rule!(r#"_"#), ref_rule!(r#"expr"#), ref_rule!(r#"_"#), or!(lit!(")"), error!("unbalanced parethesis: missing ')'")))
-       , r#"and"# => or!(ref_rule!(r#"error"#), and!(ref_rule!(r#"rep_or_neg"#), rep!(and!(ref_rule!(r#"_1"#), ref_rule!(r#"_"#), not!(and!(ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), or!(lit!("="), lit!("{")))), ref_rule!(r#"and"#)), 0)))
+       , r#"and"# => or!(ref_rule!(r#"error"#), and!(ref_rule!(r#"rep_or_neg"#), rep!(and!(ref_rule!(r#"_1"#), ref_rule!(r#"_"#), not!(and!(ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), or!(lit!("="), lit!("{")))), or!(ref_rule!(r#"error"#), ref_rule!(r#"rep_or_neg"#))), 0)))
        , r#"rule"# => and!(ref_rule!(r#"_"#), ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), lit!("="), ref_rule!(r#"_"#), ref_rule!(r#"expr"#), ref_rule!(r#"_eol"#), ref_rule!(r#"_"#))
        , r#"grammar"# => rep!(or!(ref_rule!(r#"rule"#), ref_rule!(r#"module"#)), 1)
        , r#"match"# => and!(lit!("["), or!(and!(ref_rule!(r#"mchars"#), rep!(ref_rule!(r#"mbetween"#), 0)), rep!(ref_rule!(r#"mbetween"#), 1)), lit!("]"))
-- 
2.43.0


From 6521b2993a5baf4e2bd1c2a386bafa889b5da0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 11/11] fix: translate long lists of a grammar text without
 recursion

Each rule, module, escaped character, range of a class or part of a dotted name
took its own stack frames, so some thousands of them overflowed the stack.
---
 src/peg/gcode.rs |  14 +++---
 src/peg/mod.rs   | 118 ++++++++++++++++++++++++-----------------------
 2 files changed, 66 insertions(+), 66 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index fed5c50..f4b7d07 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -93,13 +93,11 @@ fn atom2code(atom: &Atom) -> String {
 }
 
 fn match_rules2code(mrules: &atom::MatchRules) -> String {
-    fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
-        match bounds.split_first() {
-            Some(((f, t), rest)) => {
-                format!(", from {:?}, to {:?} {}", f, t, bounds2code(acc, rest))
-            }
-            None => acc,
-        }
+    fn bounds2code(bounds: &[(char, char)]) -> String {
+        bounds
+            .iter()
+            .map(|(f, t)| format!(", from {:?}, to {:?} ", f, t))
+            .collect()
     }
 
     if mrules.1.is_empty() {
@@ -108,7 +106,7 @@ fn match_rules2code(mrules: &atom::MatchRules) -> String {
     format!(
         "ematch!(chlist {:?}  {})",
         &mrules.0,
-        bounds2code(String::new(), &mrules.1)
+        bounds2code(&mrules.1)
     )
 }
 
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 65a3d6c..251cb14 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -267,30 +267,30 @@ fn consume_grammar(
         let rules = rules.merge(mod_rules);
         Ok((rules, nodes, context))
     }
-    fn rec_consume_rules_or_modules(
-        rules: expression::SetOfRules,
-        nodes: &[flat::Node],
-        context: Context,
+    fn consume_rules_or_modules(
+        mut rules: expression::SetOfRules,
+        mut nodes: &[flat::Node],
+        mut context: Context,
     ) -> result::Result<(expression::SetOfRules, &[flat::Node], Context), Error> {
-        match flat::peek_first_node(nodes)? {
-            flat::Node::BeginRule(rule_or_module) => {
-                let (rules, nodes, context) = match rule_or_module.as_ref() {
-                    "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
-                    "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
-                    unknown => Err(error_peg_s(&format!(
-                        "expected rule or module, received: {}",
-                        unknown
-                    ))),
-                }?;
-                rec_consume_rules_or_modules(rules, nodes, context)
-            }
-            _ => Ok((rules, nodes, context)),
+        while let flat::Node::BeginRule(rule_or_module) = flat::peek_first_node(nodes)? {
+            let next = match rule_or_module.as_ref() {
+                "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
+                "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
+                unknown => Err(error_peg_s(&format!(
+                    "expected rule or module, received: {}",
+                    unknown
+                ))),
+            }?;
+            rules = next.0;
+            nodes = next.1;
+            context = next.2;
         }
+        Ok((rules, nodes, context))
     }
     //  --------------------------
 
     consuming_rule("grammar", nodes, context, |nodes, context| {
-        rec_consume_rules_or_modules(rules!(), &nodes, context)
+        consume_rules_or_modules(rules!(), &nodes, context)
     })
 }
 
@@ -344,23 +344,23 @@ fn consume_rule_name(
 ) -> result::Result<(String, &[flat::Node], Context), Error> {
     // rule_name       =   '.'?  symbol  ('.' symbol)*
 
-    fn rec_consume_dot_symbol(
-        acc_name: String,
-        nodes: &[flat::Node],
-        context: Context,
+    fn consume_dot_symbols(
+        mut nodes: &[flat::Node],
+        mut context: Context,
     ) -> result::Result<(String, &[flat::Node], Context), Error> {
-        match flat::peek_first_node(nodes)? {
-            flat::Node::Val(ch) => {
-                if ch == "." {
-                    let (_, nodes) = flat::consume_val(nodes)?;
-                    let (symbol, nodes, context) = consume_symbol(nodes, context)?;
-                    let acc_name = format!("{}.{}", acc_name, symbol);
-                    rec_consume_dot_symbol(acc_name, nodes, context)
-                } else {
-                    Ok((acc_name, nodes, context))
+        let mut acc_name = String::new();
+
+        loop {
+            match flat::peek_first_node(nodes)? {
+                flat::Node::Val(ch) if ch == "." => {
+                    let (_, next_nodes) = flat::consume_val(nodes)?;
+                    let (symbol, next_nodes, next_context) = consume_symbol(next_nodes, context)?;
+                    acc_name = acc_name + "." + symbol;
+                    nodes = next_nodes;
+                    context = next_context;
                 }
+                _ => return Ok((acc_name, nodes, context)),
             }
-            _ => Ok((acc_name, nodes, context)),
         }
     }
 
@@ -382,7 +382,7 @@ fn consume_rule_name(
     consuming_rule("rule_name", nodes, context, |nodes, context| {
         let (start_dot, nodes, context) = get_dot_or_empty(nodes, context)?;
         let (symbol, nodes, context) = consume_symbol(nodes, context)?;
-        let (dot_symbol, nodes, context) = rec_consume_dot_symbol(String::new(), nodes, context)?;
+        let (dot_symbol, nodes, context) = consume_dot_symbols(nodes, context)?;
 
         let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);
         Ok((str_result, nodes, context))
@@ -694,18 +694,21 @@ fn consume_literal_esc(
         Ok((val.to_string(), nodes, context))
     }
 
-    fn rec_consume_lit_esc_ch(
-        s: String,
-        nodes: &[flat::Node],
-        context: Context,
+    fn consume_lit_esc_chs(
+        mut nodes: &[flat::Node],
+        mut context: Context,
     ) -> result::Result<(String, &[flat::Node], Context), Error> {
-        let next_node_name = flat::get_nodename(flat::peek_first_node(nodes)?);
-
-        match next_node_name {
-            Ok("_\"") => Ok((s, nodes, context)),
-            _ => {
-                let (v, nodes, context) = consume_element(nodes, context)?;
-                rec_consume_lit_esc_ch(s + &v.to_string(), nodes, context)
+        let mut s = String::new();
+
+        loop {
+            match flat::get_nodename(flat::peek_first_node(nodes)?) {
+                Ok("_\"") => return Ok((s, nodes, context)),
+                _ => {
+                    let (v, next_nodes, next_context) = consume_element(nodes, context)?;
+                    s += &v;
+                    nodes = next_nodes;
+                    context = next_context;
+                }
             }
         }
     }
@@ -713,7 +716,7 @@ fn consume_literal_esc(
     consuming_rule("lit_esc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_quote(nodes, context)?;
 
-        let (val, nodes, context) = rec_consume_lit_esc_ch(String::new(), nodes, context)?;
+        let (val, nodes, context) = consume_lit_esc_chs(nodes, context)?;
 
         let vclone = val.clone();
         push_err!(&format!("lesc:({})", vclone), {
@@ -850,20 +853,19 @@ fn consume_match(
 
     type VecChCh = Vec<(char, char)>;
     consuming_rule("match", nodes, context, |nodes, context| {
-        fn rec_consume_mbetween(
-            acc: Vec<(char, char)>,
-            nodes: &[flat::Node],
-            context: Context,
+        fn consume_mbetweens(
+            mut nodes: &[flat::Node],
+            mut context: Context,
         ) -> result::Result<(VecChCh, &[flat::Node], Context), Error> {
-            let next_node = flat::peek_first_node(nodes)?;
-            let node_name = flat::get_nodename(next_node);
-            match node_name {
-                Ok("mbetween") => {
-                    let ((from, to), nodes, context) = consume_mbetween(nodes, context)?;
-                    rec_consume_mbetween(acc.ipush((from, to)), nodes, context)
-                }
-                _ => Ok((acc, nodes, context)),
+            let mut acc = vec![];
+
+            while let Ok("mbetween") = flat::get_nodename(flat::peek_first_node(nodes)?) {
+                let (from_to, next_nodes, next_context) = consume_mbetween(nodes, context)?;
+                acc.push(from_to);
+                nodes = next_nodes;
+                context = next_context;
             }
+            Ok((acc, nodes, context))
         }
         //  --------------------------
 
@@ -877,7 +879,7 @@ fn consume_match(
             _ => (None, nodes, context),
         };
 
-        let (vchars, nodes, context) = rec_consume_mbetween(vec![], nodes, context)?;
+        let (vchars, nodes, context) = consume_mbetweens(nodes, context)?;
 
         let (expr, nodes) = match (omchars, vchars.is_empty()) {
             (Some(chars), true) => Ok((ematch!(chlist chars, from2 vec![]), nodes)),
-- 
2.43.0


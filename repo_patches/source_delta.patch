From 60b54c3bf580cfc7738f058ebddd1fe9368133af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 01/12] fix: PrinterContext::new must not swap the inline and
 multiline separators

---
 src/printer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 4903e2e..043d858 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -136,8 +136,8 @@ impl PrinterContext {
             indent_step,
             inline_size,
             l_s: line_s.clone(),
-            l_s_i: line_s,
-            l_s_m: "".to_string(),
+            l_s_i: "".to_string(),
+            l_s_m: line_s,
             attr_value_printers: HashMap::new(),
         }
     }
-- 
2.43.0


From 14d194733f4c88f3044552d5f8dc9d255d01d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 02/12] fix: restore the indent after printing a graph so the
 context can be reused

---
 src/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 043d858..297540f 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -335,7 +335,7 @@ impl DotPrinter for Graph {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         ctx.indent_grow();
 
-        match self {
+        let r = match self {
             Graph::Graph { id, strict, stmts } if *strict => {
                 ctx.is_digraph = false;
                 let body = stmts.print(ctx);
@@ -382,7 +382,9 @@ impl DotPrinter for Graph {
                     ctx.l_s
                 )
             }
-        }
+        };
+        ctx.indent_shrink();
+        r
     }
 }
 
-- 
2.43.0


From 1c0dc645ee0128d1dcd80d4e35bd39b663e9dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 03/12] fix: do not merge statements printed on one line

---
 src/printer.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/printer.rs b/src/printer.rs
index 297540f..dd5b93d 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -391,10 +391,25 @@ impl DotPrinter for Graph {
 impl DotPrinter for Vec<Stmt> {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
+        if ctx.is_inline_on() {
+            return join_inline(&attrs);
+        }
         attrs.join(ctx.l_s.as_str())
     }
 }
 
+/// Joins the statements on one line keeping a blank between two words.
+fn join_inline(stmts: &[String]) -> String {
+    let mut line = String::new();
+    for stmt in stmts {
+        if !line.is_empty() && !line.ends_with(|c| matches!(c, ']' | '}' | ';')) {
+            line.push(' ');
+        }
+        line.push_str(stmt);
+    }
+    line
+}
+
 impl DotPrinter for Stmt {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         let end = if ctx.semi { ";" } else { "" };
-- 
2.43.0


From 8ac57d511ad517fb4ad8c03fb0a039be10460270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 04/12] fix: print an attribute statement without attributes
 with its brackets

---
 src/printer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/printer.rs b/src/printer.rs
index dd5b93d..b46cffd 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -298,6 +298,10 @@ impl DotPrinter for Vec<Attribute> {
 impl DotPrinter for GraphAttributes {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         match self {
+            // the brackets are what tells an attribute statement from a node
+            GraphAttributes::Graph(attrs) if attrs.is_empty() => "graph[]".to_string(),
+            GraphAttributes::Node(attrs) if attrs.is_empty() => "node[]".to_string(),
+            GraphAttributes::Edge(attrs) if attrs.is_empty() => "edge[]".to_string(),
             GraphAttributes::Graph(attrs) => format!("graph{}", attrs.print(ctx)),
             GraphAttributes::Node(attrs) => format!("node{}", attrs.print(ctx)),
             GraphAttributes::Edge(attrs) => format!("edge{}", attrs.print(ctx)),
-- 
2.43.0


From 876979788d7ede514cf8bb4bf3a6fc2c663d5670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 05/12] fix: match the whole compass point of a port

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 2226670..e7b1cd9 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -14,7 +14,7 @@ html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-compass = ${"n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_"}
+compass = ${("ne" | "nw" | "n" | "e" | "se" | "sw" | "s" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
 
 port = {":" ~ id ~ (":" ~ compass)? }
 id = {plain | html | string_qt}
-- 
2.43.0


From 9e796f398c1933884dc6c1418a8ebcacbafc0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 06/12] fix: parse an edge that starts with a subgraph

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index e7b1cd9..a455645 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -31,7 +31,7 @@ edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
 subgraph = {"subgraph" ~ id? ~ body}
-stmt = {attr_stmt | subgraph | bare_attr | edge_stmt | node }
+stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = {"strict"}
 graph_ty = {"graph" | "digraph"}
-- 
2.43.0


From c8ba92dfd7b2594af447772ff6a36aee179d0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 07/12] fix: end an html string at its matching bracket

---
 src/grammar/dot.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index a455645..9559533 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -10,7 +10,8 @@ char = {
 inner = ${ char* }
 number = ${"-"? ~ (("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) ~ ("." ~ ASCII_DIGIT+)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
-html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
+html = ${"<" ~ html_part* ~ ">"}
+html_part = _{"<" ~ html_part* ~ ">" | !("<" | ">") ~ ANY}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-- 
2.43.0


From b3b30073a574e392e3a42fdbc768e455b31675a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 08/12] fix: accept every dot numeral

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 9559533..8598d7a 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -8,7 +8,7 @@ char = {
 }
 
 inner = ${ char* }
-number = ${"-"? ~ (("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) ~ ("." ~ ASCII_DIGIT+)? | ("." ~ ASCII_DIGIT+))}
+number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
 html = ${"<" ~ html_part* ~ ">"}
 html_part = _{"<" ~ html_part* ~ ">" | !("<" | ">") ~ ANY}
-- 
2.43.0


From 199363ed9f7d3dd97f1f5ab0c9394147ffeb09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 09/12] fix: pass the names graphviz knows for osage and wbmp

---
 src/cmd.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cmd.rs b/src/cmd.rs
index 673beae..6dd101e 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -122,6 +122,7 @@ impl CommandArg {
         match self {
             CommandArg::Custom(s) => s.clone(),
             CommandArg::Output(p) => format!("-o{}", p),
+            CommandArg::Layout(Layout::Asage) => "-Kosage".to_string(),
             CommandArg::Layout(l) => format!("-K{}", format!("{:?}", l).to_lowercase()),
             CommandArg::Format(f) => {
                 let str = match f {
@@ -132,6 +133,7 @@ impl CommandArg {
                     Format::DotJson => "dot_json".to_string(),
                     Format::XdotJson => "xdot_json".to_string(),
                     Format::PlainExt => "plain-ext".to_string(),
+                    Format::Vbmp => "wbmp".to_string(),
                     _ => format!("{:?}", f).to_lowercase(),
                 };
                 format!("-T{}", str)
-- 
2.43.0


From b4111f375dd0f086546ba3b88734b100939e7928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 10/12] fix: edge! with a chain and a vec of attributes must
 expand to valid code

---
 dot-generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 0dcb7bf..ba3daf2 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -558,7 +558,7 @@ macro_rules! edge {
     }};
 
     ($l:expr => $r:expr, $attrs:expr) => {
-        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs };
+        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs }
     };
     ($l:expr => $r:expr; $($attrs:expr),+) => {{
          let mut attrs_vec = Vec::new();
@@ -576,7 +576,7 @@ macro_rules! edge {
     }};
     ($l:expr => $r:expr $(=> $nexts:expr)+ , $attrs:expr) => {{
 
-         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)]
+         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
          $( edges_vec.push(Vertex::from($nexts)) ; )+
 
         Edge{ ty: EdgeTy::Chain(edges_vec), attributes: $attrs }
-- 
2.43.0


From eaecf9517dc6ed4535d26a79c6f624f0a3f3e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 11/12] fix: graph!(di id) must keep the given id

---
 dot-generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index ba3daf2..6cdd806 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -687,10 +687,10 @@ macro_rules! graph {
         Graph::Graph { id: $id, strict: false, stmts: vec![] }
     };
     (strict di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: true, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: true, stmts: vec![] }
     };
     (di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: false, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
     };
     (strict $id:expr, $stmts:expr) => {
         Graph::Graph { id: $id, strict: true, stmts: $stmts }
-- 
2.43.0


From e069fea3ecdf39bcb764bc003222fbefba023f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 12/12] fix: a keyword must be a whole word (subgraphx {} and
 strictgraph {} were accepted)

---
 src/grammar/dot.pest | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 8598d7a..b9918e8 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -24,17 +24,18 @@ attr = {bare_attr ~ (";" |",")?}
 attr_list = {("[" ~ attr* ~ "]")+}
 node = {node_id ~ attr_list*}
 
-attr_mark = {"graph" | "node" | "edge"}
+attr_mark = ${("graph" | "node" | "edge") ~ !(word | ASCII_DIGIT)}
 attr_stmt = {attr_mark ~ attr_list}
 bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
-subgraph = {"subgraph" ~ id? ~ body}
+subgraph_mark = @{"subgraph" ~ !(word | ASCII_DIGIT)}
+subgraph = {&subgraph_mark ~ "subgraph" ~ id? ~ body}
 stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-strict = {"strict"}
-graph_ty = {"graph" | "digraph"}
+strict = ${"strict" ~ !(word | ASCII_DIGIT)}
+graph_ty = ${("graph" | "digraph") ~ !(word | ASCII_DIGIT)}
 graph = {strict? ~ graph_ty ~ id? ~ body}
 file = {SOI ~ graph ~ EOI }
\ No newline at end of file
-- 
2.43.0


From 842bf951df1d03a313cc6efc4e20f6de0e727e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 01/31] fix: unescape stops at the first semicolon and never
 slices inside a character

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1649a13..3de6bd1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,7 +289,6 @@ pub fn unescape(text: impl Into<String>) -> String {
 				let slice = (&buffer[i..]).to_string();
 				let mut char_size: usize = 1;
 				for (j, k) in slice.char_indices() {
-					char_size = k.len_utf8();
 					if k == ';' {
 						let end = i + j + 1;
 						let slice = &slice[..j];
@@ -324,6 +323,8 @@ pub fn unescape(text: impl Into<String>) -> String {
 								Err(_) => { /* do nothing */ }
 							}
 						}
+						// an escape sequence ends at the first semicolon
+						break;
 					}
 				}
 				last_i = i+char_size;
-- 
2.43.0


From e4a2354f2eec5da3dbec7f8e1c37de10fbd12239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 02/31] fix: abbreviate error and warning text at character
 boundaries

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3de6bd1..e5c14ad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -607,9 +607,14 @@ fn abbreviate(text: &str, limit: usize) -> String {
 	if limit < 4 || text.len() <= limit {
 		text.to_string()
 	} else {
-		let mut buffer = (&text[0..(limit / 2 - 1)]).to_string();
+		// do not cut in the middle of a multi-byte character
+		let mut head = limit / 2 - 1;
+		while !text.is_char_boundary(head) {head -= 1;}
+		let mut tail = text.len() - limit / 2;
+		while !text.is_char_boundary(tail) {tail += 1;}
+		let mut buffer = (&text[0..head]).to_string();
 		buffer.push_str("…");
-		buffer.push_str(&text[(text.len() - limit / 2)..]);
+		buffer.push_str(&text[tail..]);
 		buffer
 	}
 }
-- 
2.43.0


From c52b51be130cb5c2b8098e24aea1fb1ec24ec708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 03/31] fix: warnings do not panic when standard error cannot
 be written

---
 src/dom.rs |  4 ++--
 src/lib.rs | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 62c623d..f279590 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -130,7 +130,7 @@ Produces the XML text representing this XML DOM using the default indent of two
 		match crate::validate_indent(indent.as_str()){
 			Ok(_) => {},
 			Err(_) => {
-				eprintln!("WARNING: {:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent);
+				crate::warn(format_args!("WARNING: {:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent));
 				indent = "  ".to_string();
 			}
 		};
@@ -1544,7 +1544,7 @@ impl Node for Element {
 		match crate::validate_indent(indent){
 			Ok(_) => self.to_string_with_prefix_and_indent("", indent, false),
 			Err(_) => {
-				eprintln!("WARNING: {:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent);
+				crate::warn(format_args!("WARNING: {:?} is not a valid indentation. Must be either 1 tab or any number of spaces. The default of 2 spaces will be used instead", indent));
 				self.to_string_with_prefix_and_indent("", "  ", false)
 			}
 		}
diff --git a/src/lib.rs b/src/lib.rs
index e5c14ad..1c1cf91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,7 +237,7 @@ use std::cell::{OnceCell};
 use std::cmp::Ordering;
 use std::collections::{HashMap, VecDeque};
 use std::fs;
-use std::io::Read;
+use std::io::{Read, Write};
 use std::path::Path;
 use regex::Regex;
 use crate::errors::KissXmlError;
@@ -419,7 +419,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		} else if slice.starts_with("<!--") {
 			// comments outside root element not supported
 			if no_comment_warn == 0 {
-				eprintln!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32));
+				warn(format_args!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32)));
 			}
 			no_comment_warn += 1;
 		} else if slice.starts_with("<!DOCTYPE") {
@@ -428,7 +428,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			dtds.push(dtd);
 		} else if slice.starts_with("<!"){
 			// some other XML mallarky
-			eprintln!("WARNING: Ignoring {slice} (not supported outside root element)");
+			warn(format_args!("WARNING: Ignoring {slice} (not supported outside root element)"));
 		} else if slice.starts_with("</") {
 			// bad XML
 			let (line, col) = line_and_column(&buffer, tag_start);
@@ -602,6 +602,11 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	))
 }
 
+/// prints a warning to standard error (unlike `eprintln!`, does not panic if it cannot be written)
+pub(crate) fn warn(message: std::fmt::Arguments) {
+	let _ = writeln!(std::io::stderr(), "{message}");
+}
+
 /// abbreviates long strings with ...
 fn abbreviate(text: &str, limit: usize) -> String {
 	if limit < 4 || text.len() <= limit {
-- 
2.43.0


From 9db33e21ba2644389867e82419afd4a2f72bc7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 04/31] fix: DTDs are written with their <!DOCTYPE and >

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index f279590..6f5ad10 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2089,6 +2089,6 @@ impl DTD {
 
 impl std::fmt::Display for DTD {
 	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-		write!(f, "{}", self.dtd_str)
+		write!(f, "<!DOCTYPE{}>", self.dtd_str)
 	}
 }
-- 
2.43.0


From d9590066e6de74f9987a74fccf84eae840bf794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 05/31] fix: comments may start with '>' or '->'

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c1cf91..bd2f05c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -767,7 +767,8 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	let sub_buffer = &buffer[start_index..];
 	if sub_buffer.starts_with("<!--") {
 		// comment
-		return (start, sub_buffer.find("-->").map(|i|i+start_index+3));
+		// (the opening "<!--" cannot also be part of the closing "-->")
+		return (start, (&sub_buffer[4..]).find("-->").map(|i|i+start_index+4+3));
 	} else if sub_buffer.starts_with("<?") {
 		// declaration, look for ?> but handle quoting
 		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
-- 
2.43.0


From 6d74a602a263514385efd512c4521775940bf48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 06/31] fix: a second root element is an error and does not
 replace the first

---
 src/lib.rs     | 9 +++++++--
 src/parsing.rs | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd2f05c..d324a42 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -452,7 +452,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	let mut parse_stack = parsing::ParseTree::new();
 	let root_slice = &buffer[tag_span.0 .. tag_span.1];
 	let root_element: dom::Element = parse_new_element(strip_tag(root_slice).as_str(), &buffer, &tag_span, None)?;
-	parse_stack.push(root_element);
+	parse_stack.push(root_element)?;
 	let selfclosing_root = root_slice.ends_with("/>");
 	if selfclosing_root {parse_stack.pop()?;}  // pop root if it is  self-closing
 	let mut last_span: (usize, usize);
@@ -582,7 +582,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 						))
 					})?;
 				} else {
-					parse_stack.push(new_element);
+					parse_stack.push(new_element).map_err(|e| {
+						let (line, col) = line_and_column(&buffer, tag_span.0);
+						errors::ParsingError::new(format!(
+							"{} (syntax error on line {line}, column {col})", e
+						))
+					})?;
 				}
 			}
 		}
diff --git a/src/parsing.rs b/src/parsing.rs
index 737ddb7..bdd59e4 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -31,8 +31,12 @@ impl ParseTree {
 		}
 	}
 	/// push a new element to the stack
-	pub fn push(&mut self, new_element: Element) {
+	pub fn push(&mut self, new_element: Element) -> Result<(), KissXmlError> {
 		if self.pos.is_none() {
+			if !self.data.is_empty() {
+				// the root element was already closed
+				return Err(ParsingError::new("only 1 root element is allowed").into());
+			}
 			self.data.insert(0, ParseTreeNode{
 				id: 0,
 				value: Box::new(new_element),
@@ -53,6 +57,7 @@ impl ParseTree {
 			});
 			self.pos = Some(new_pos);
 		}
+		Ok(())
 	}
 	/// pop the top element from the stack
 	pub fn pop(&mut self) -> Result<(), KissXmlError> {
-- 
2.43.0


From 36579e49eb8b163c17d9f5e2016ba2ad5a13bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 07/31] fix: accept spaces around = in the tag syntax check

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d324a42..e4bf7ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -749,7 +749,7 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*=(".*?"|'.*?'))*\s*/?>"#);
+		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*\s*=\s*(".*?"|'.*?'))*\s*/?>"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
-- 
2.43.0


From 98334502d7cf4947e7ae31b8d5a74787146d4898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 08/31] fix: keep all whitespace in elements that have text, as
 documented

---
 src/dom.rs     | 12 ++++++++++--
 src/lib.rs     |  6 +++++-
 src/parsing.rs |  9 ++++++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 6f5ad10..c322841 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -840,6 +840,10 @@ impl Element {
 	pub(crate) fn reverse_children(&mut self) {
 		self.child_nodes.reverse();
 	}
+	/** adds a node from the parser (whose namespace context is already set) without text clean-up */
+	pub(crate) fn push_parsed(&mut self, node: Box<dyn Node>) {
+		self.child_nodes.push(node);
+	}
 	/** Returns a list of al child elements as an iterator */
 	pub fn child_elements(&self) ->  impl Iterator<Item = &Element>{
 		self.child_nodes.iter()
@@ -1188,8 +1192,8 @@ impl Element {
 			Some(xmlns_context)
 		);
 	}
-	/** Discards merges sequential text nodes and then whitespace-only text nodes */
-	fn cleanup_text_nodes(&mut self) {
+	/** Merges sequential text nodes and then, unless this element has other text, discards whitespace-only text nodes */
+	pub(crate) fn cleanup_text_nodes(&mut self) {
 		// check if there are children
 		if self.child_nodes.len() == 0 {return;}
 		// merge sequential text nodes (back-to-front order for performance)
@@ -1205,6 +1209,10 @@ impl Element {
 			}
 			index -= 1;
 		}
+		// all whitespace is significant in an element that has text
+		if self.child_nodes.iter().any(|n| n.as_text().is_ok_and(|t| !t.content.trim().is_empty())) {
+			return;
+		}
 		// remove text nodes that are whitespace
 		assert!(self.child_nodes.len() > 0, "logic error: self.child_nodes should never be empty here!");
 		let mut index = self.child_nodes.len() - 1;
diff --git a/src/lib.rs b/src/lib.rs
index e4bf7ff..a0f0670 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -485,7 +485,11 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 
 		// if text is not empty, add text node
 		match real_text(text) {
-			None => {},
+			None => if !text.is_empty() && !parse_stack.empty_stack() {
+				// blank text is significant if its parent turns out to have other text
+				// (discarded by the text clean-up if not)
+				parse_stack.append(dom::Text::new(text))?;
+			},
 			Some(content) => {
 				parse_stack.append(dom::Text::new(content))
 					.map_err(|e|{
diff --git a/src/parsing.rs b/src/parsing.rs
index bdd59e4..0bc4e4f 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -112,13 +112,15 @@ impl ParseTree {
 		for i in (1..self.data.len()).rev() {
 			let mut node = self.data.remove(&i).expect("logic error: missing index");
 			if node.value.is_element() {
-				// flip the children of element
-				node.value.as_element_mut().unwrap().reverse_children()
+				// flip the children of element, which are now complete
+				let e = node.value.as_element_mut().unwrap();
+				e.reverse_children();
+				e.cleanup_text_nodes();
 			}
 			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
 			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
 				.value.as_element_mut().expect("logic error: parent is not an Element")
-				.append_boxed(node.value);
+				.push_parsed(node.value);
 		}
 		let root_node = self.data.remove(&0).expect("logic error: no root element");
 		let mut root = root_node.destruct();
@@ -128,6 +130,7 @@ impl ParseTree {
 		let e = root.as_element_mut().expect("logic error: root is not an element");
 		// flip children because they were added in reverse order
 		e.reverse_children();
+		e.cleanup_text_nodes();
 		// done
 		// use mem::take to do a "DerefMove" operation
 		return Ok(std::mem::take(e));
-- 
2.43.0


From 28bf76b045bf7a812bd8ab97e6b16594e395c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 09/31] fix: reject names with characters that XML does not
 allow in names

---
 src/dom.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index c322841..8574403 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -405,6 +405,9 @@ pub fn node_eq(n1: &Box<dyn Node>, n2: &Box<dyn Node>) -> bool {
 	}
 }
 
+/// pattern for valid element and attribute names (see https://www.w3.org/TR/REC-xml/#NT-NameChar)
+const NAME_PATTERN: &str = r#"^[_a-zA-Z][:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]*$"#;
+
 /// Represents an XML element with a name, text content, attributes, xmlns namespace (with optional prefix), and children.
 pub struct Element {
 	/// Name of this element
@@ -442,6 +445,9 @@ impl Element {
 		// sanity check
 		let name = name.into();
 		Element::check_elem_name(name.as_str())?;
+		if let Some(prefix) = &xmlns_prefix {
+			Element::check_elem_name(prefix.as_str())?;
+		}
 		// first, convert attributes to <String,String> map
 		let mut attrs: HashMap<String, String> = HashMap::new();
 		match attributes {
@@ -986,7 +992,7 @@ impl Element {
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
 		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
@@ -1000,7 +1006,7 @@ impl Element {
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
 		let singleton = Element::NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
-- 
2.43.0


From f53363942ff96f1e7ca66a742412e5586015c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 10/31] fix: insert applies the namespace context to the
 inserted node

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 8574403..a9b22b7 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1292,7 +1292,7 @@ impl Element {
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
 			self.default_namespace(), self.xmlns_context.clone(),
-			self.child_nodes.last_mut().unwrap()
+			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
-- 
2.43.0


From 1f860fe0e6d01e09f22433826371f5d26099e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 11/31] fix: a namespace given to Element::new is declared in
 the element's attributes

---
 src/dom.rs |  9 ++++++++-
 src/lib.rs | 21 +++++++--------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index a9b22b7..eac22d7 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -462,7 +462,14 @@ impl Element {
 		}
 		// xmlns check
 		let mut xmlns = xmlns;
-		if xmlns.is_none() {
+		if let Some(ns) = &xmlns {
+			// overrides any xmlns definition in the attributes
+			let key = match &xmlns_prefix {
+				None => "xmlns".to_string(),
+				Some(prefix) => format!("xmlns:{prefix}")
+			};
+			attrs.insert(key, ns.clone());
+		} else {
 			match &xmlns_prefix {
 				None => {
 					// default xmlns
diff --git a/src/lib.rs b/src/lib.rs
index a0f0670..0caa29d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -677,7 +677,6 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 	}
 	// parse name and namespace
 	let mut name = components[0].as_str();
-	let mut xmlns: Option<String> = None;
 	let mut xmlns_prefix: Option<String> = None;
 	// check parent for inherited namespaces
 	let (inherited_default_namespace, inherited_xmlns_context) = match parent {
@@ -690,21 +689,15 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 		xmlns_prefix = Some(a.to_string());
 		// check if the prefix is in attributes or inherited from parent
 		let prefix_key = format!("xmlns:{a}");
-		xmlns = match attrs.contains_key(&prefix_key){
-			true => attrs.get(prefix_key.as_str()).map(String::clone),
-			false => match &inherited_xmlns_context{
-				None => {
-					let (line, col) = line_and_column(&buffer, tag_span.0);
-					return Err(errors::ParsingError::new(format!(
-						"invalid XML syntax on line {line}, column {col}: XML namespace prefix '{a}' has no defined namespace (missing 'xmlns:{a}=\"...\"')"
-					)).into());
-				}
-				Some(ctx) => {ctx.get(prefix_key.as_str()).map(String::clone)}
-			}
-		};
+		if !attrs.contains_key(&prefix_key) && inherited_xmlns_context.is_none() {
+			let (line, col) = line_and_column(&buffer, tag_span.0);
+			return Err(errors::ParsingError::new(format!(
+				"invalid XML syntax on line {line}, column {col}: XML namespace prefix '{a}' has no defined namespace (missing 'xmlns:{a}=\"...\"')"
+			)).into());
+		}
 	}
 	let mut new_element = dom::Element::new(
-		name, None, Some(attrs), xmlns, xmlns_prefix, None
+		name, None, Some(attrs), None, xmlns_prefix, None
 	)?;
 	new_element.set_namespace_context(inherited_default_namespace, inherited_xmlns_context);
 	Ok(new_element)
-- 
2.43.0


From 585aec07edb5a3571d273ca5e2c69eea6813637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 12/31] fix: attaching an element resolves its namespace and
 those under it again

---
 src/dom.rs | 81 ++++++++++++++++++------------------------------------
 src/lib.rs |  7 ++---
 2 files changed, 29 insertions(+), 59 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index eac22d7..a85e821 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -420,7 +420,7 @@ pub struct Element {
 	xmlns: Option<String>,
 	/// optional xmlns (if xmlns_prefix is None then the xmlns is default namespace)
 	xmlns_prefix: Option<String>,
-	/// xmlns definitions for this element, if any
+	/// xmlns definitions inherited from parent elements, if any (default xmlns is saved as prefix "")
 	xmlns_context: HashMap<String, String>
 }
 
@@ -491,7 +491,7 @@ impl Element {
 		let mut elem = Self {
 			name: name,
 			child_nodes: Vec::new(),
-			xmlns_context: Element::xmlns_context_from_attributes(&attrs),
+			xmlns_context: HashMap::new(),
 			attributes: attrs,
 			xmlns: xmlns.map(|s| s.to_string()),
 			xmlns_prefix: xmlns_prefix.map(|s| s.to_string())
@@ -626,6 +626,8 @@ impl Element {
 				let prefix = split[1].to_string();
 				let ns = v.clone();
 				prefixes.insert(prefix, ns);
+			} else if key == "xmlns" {
+				prefixes.insert(String::new(), v.clone());
 			}
 		}
 		return prefixes;
@@ -806,47 +808,28 @@ impl Element {
 	}
 	/** Gets any and all xmlns prefixes defined in this element (does not include prefix-less default namespace, nor prefixes inherited from a parent element) */
 	pub fn namespace_prefixes(&self) -> Option<HashMap<String, String>> {
-		let prefixes = Self::xmlns_context_from_attributes(&self.attributes);
+		let mut prefixes = Self::xmlns_context_from_attributes(&self.attributes);
+		prefixes.remove("");
 		if prefixes.is_empty() {
 			None
 		} else {
 			Some(prefixes)
 		}
 	}
-	/** Gets any and all xmlns prefixes relevant to this element. This includes both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
-	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {self.xmlns_context.clone()}
-	/** Sets any and all xmlns prefixes this element should inherit. This must include both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
-	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
-		// inherit default namespace unless this element also defines one
-		match self.xmlns_prefix {
-			None => {
-				match self.default_namespace() {
-					None => self.xmlns = parent_default_namespace,
-					Some(_) => {/* do nothing */}
-				}
-			}
-			Some(_) => {/* do nothing */}
-		}
-		// add prefixed namespaces (except where already defined locally)
-		match parent_prefixes {
-			None => {}
-			Some(prefixes) => {
-				for (prefix, ns) in prefixes {
-					if ! self.xmlns_context.contains_key(prefix.as_str()) {
-						let _ = &self.xmlns_context.insert(prefix, ns);
-					}
-				}
-			}
-		}
-		// set this namespace if a prefix was specified without xmlns def attribute
-		if self.xmlns.is_none() {
-			match &self.xmlns_prefix {
-				None => {}
-				Some(prefix) => {
-					// get prefix namespace from context
-					self.xmlns = self.xmlns_context.get(prefix).map(String::clone);
-				}
-			};
+	/** Gets any and all xmlns definitions relevant to this element (default xmlns is saved as prefix ""). This includes both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
+	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {
+		let mut context = self.xmlns_context.clone();
+		// local definitions override inherited ones
+		context.extend(Self::xmlns_context_from_attributes(&self.attributes));
+		context
+	}
+	/** Sets any and all xmlns definitions this element should inherit, replacing any that it inherited before, then resolves the namespaces of this element and of all elements under it. */
+	pub(crate) fn set_namespace_context(&mut self, parent_context: HashMap<String, String>) {
+		self.xmlns_context = parent_context;
+		let context = self.get_namespace_context();
+		self.xmlns = context.get(self.xmlns_prefix.as_deref().unwrap_or("")).map(String::clone);
+		for child in self.child_elements_mut() {
+			child.set_namespace_context(context.clone());
 		}
 	}
 	/** flips the order of child nodes (non-recursive) */
@@ -1182,29 +1165,19 @@ impl Element {
 	}
 	/** same as [append(...)](Element::append()) but for a Box&lt;dyn Node&gt; */
 	pub fn append_boxed(&mut self, mut node: Box<dyn Node>) {
-		Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut node);
+		Self::apply_xmlns_context_to_child_node(self.get_namespace_context(), &mut node);
 		self.child_nodes.push(node);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
 	}
 	/** Applies this element's context to the given child */
-	fn apply_xmlns_context_to_child_node(df_xmlns: Option<String>, xmlns_context: HashMap<String, String>, node: &mut Box<dyn Node>) {
+	fn apply_xmlns_context_to_child_node(xmlns_context: HashMap<String, String>, node: &mut Box<dyn Node>) {
 		let is_element = node.is_element();
 		if is_element {
-			Self::apply_xmlns_context_to_child_element(
-				df_xmlns, xmlns_context,
-				node.as_element_mut().expect("logic error")
-			);
+			// update xmlns context if we just added an element
+			node.as_element_mut().expect("logic error").set_namespace_context(xmlns_context);
 		}
 	}
-	/** Applies the default xmlns and prefixed xmlns context to the given child */
-	fn apply_xmlns_context_to_child_element(df_xmlns: Option<String>, xmlns_context: HashMap<String, String>, child: &mut Element) {
-		// update xmlns prefix context if we just added an element
-		child.set_namespace_context(
-			df_xmlns,
-			Some(xmlns_context)
-		);
-	}
 	/** Merges sequential text nodes and then, unless this element has other text, discards whitespace-only text nodes */
 	pub(crate) fn cleanup_text_nodes(&mut self) {
 		// check if there are children
@@ -1281,8 +1254,8 @@ impl Element {
 		// then apply the xmlns context to the elements
 		for i in elem_indices {
 			Self::apply_xmlns_context_to_child_node(
-				self.default_namespace(), self.xmlns_context.clone(),
-			&mut self.child_nodes[i]
+				self.get_namespace_context(),
+				&mut self.child_nodes[i]
 			);
 		}
 		// clean-up text nodes
@@ -1298,7 +1271,7 @@ impl Element {
 		// Note: if this is an element, set the namespace context
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
-			self.default_namespace(), self.xmlns_context.clone(),
+			self.get_namespace_context(),
 			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
diff --git a/src/lib.rs b/src/lib.rs
index 0caa29d..23db040 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -679,10 +679,7 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 	let mut name = components[0].as_str();
 	let mut xmlns_prefix: Option<String> = None;
 	// check parent for inherited namespaces
-	let (inherited_default_namespace, inherited_xmlns_context) = match parent {
-		None => (None, None),
-		Some(parent) => (parent.default_namespace(), Some(parent.get_namespace_context()))
-	};
+	let inherited_xmlns_context = parent.map(|parent| parent.get_namespace_context());
 	if name.contains(":"){
 		let (a, b) = name.split_once(":").unwrap();
 		name = b;
@@ -699,7 +696,7 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 	let mut new_element = dom::Element::new(
 		name, None, Some(attrs), None, xmlns_prefix, None
 	)?;
-	new_element.set_namespace_context(inherited_default_namespace, inherited_xmlns_context);
+	new_element.set_namespace_context(inherited_xmlns_context.unwrap_or_default());
 	Ok(new_element)
 }
 
-- 
2.43.0


From 2a58748ac2fd585c065291fbe15fdfb686444ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 13/31] fix: changing xmlns attributes of an element changes
 the namespaces they define

---
 src/dom.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index a85e821..edab815 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -826,6 +826,10 @@ impl Element {
 	/** Sets any and all xmlns definitions this element should inherit, replacing any that it inherited before, then resolves the namespaces of this element and of all elements under it. */
 	pub(crate) fn set_namespace_context(&mut self, parent_context: HashMap<String, String>) {
 		self.xmlns_context = parent_context;
+		self.resolve_namespaces();
+	}
+	/** Resolves the namespaces of this element and of all elements under it from their attributes and the inherited xmlns definitions */
+	fn resolve_namespaces(&mut self) {
 		let context = self.get_namespace_context();
 		self.xmlns = context.get(self.xmlns_prefix.as_deref().unwrap_or("")).map(String::clone);
 		for child in self.child_elements_mut() {
@@ -971,7 +975,9 @@ impl Element {
 		let n: String = attr_name.into();
 		Element::check_attr_name(n.as_str())?;
 		let v: String = value.into();
+		let is_xmlns = n.starts_with("xmlns");
 		self.attributes.insert(n, v);
+		if is_xmlns {self.resolve_namespaces();}
 		Ok(())
 	}
 
@@ -1007,11 +1013,14 @@ impl Element {
 	/** Deletes an attribute from this element */
 	pub fn remove_attr(&mut self, attr_name: impl Into<String>) -> Option<String> {
 		let n: String = attr_name.into();
-		self.attributes.remove(&n)
+		let removed = self.attributes.remove(&n);
+		if n.starts_with("xmlns") {self.resolve_namespaces();}
+		removed
 	}
 	/** Deletes all attributes from this element */
 	pub fn clear_attributes(&mut self) {
-		self.attributes.clear()
+		self.attributes.clear();
+		self.resolve_namespaces();
 	}
 	/**
 	Performs a recursive search of all child nodes of this element (and all children of child elements, etc), returning an iterator of all nodes matching the given predicate.
-- 
2.43.0


From 09312203b848b33506442cef848822d37eb39c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 14/31] fix: a declaration that is only <?> is an error, not a
 panic

---
 src/dom.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index edab815..52616cc 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2039,10 +2039,9 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.starts_with("<?") && buffer.ends_with("?>"){
-			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
-		} else {
-			Err(ParsingError::new("Invalid XML declaration syntax").into())
+		match buffer.strip_prefix("<?").and_then(|s| s.strip_suffix("?>")) {
+			Some(decl_str) => Ok(Self{decl_str: decl_str.to_string()}),
+			None => Err(ParsingError::new("Invalid XML declaration syntax").into())
 		}
 	}
 	/// Creates a new standard Declaration (UTF-8 encoded XML version 1)
-- 
2.43.0


From 74ae04e52253392eb5c877aec2e1c1973d2196f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 15/31] fix: only xmlns and xmlns:* attributes sort before the
 others

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23db040..c91be00 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -342,9 +342,10 @@ pub(crate) fn attribute_order(kv_tup1: &(&String, &String), kv_tup2: &(&String,
 	if a == b {
 		return kv_tup1.1.cmp(&kv_tup2.1);
 	}
-	if a.starts_with("xmlns") && !b.starts_with("xmlns") {
+	let is_xmlns = |name: &str| name == "xmlns" || name.starts_with("xmlns:");
+	if is_xmlns(a) && !is_xmlns(b) {
 		return Ordering::Less;
-	} else if !a.starts_with("xmlns") && b.starts_with("xmlns") {
+	} else if !is_xmlns(a) && is_xmlns(b) {
 		return Ordering::Greater;
 	} else {
 		return a.cmp(&b);
-- 
2.43.0


From b4c54cae1cbb9a027c30244063cb178d8aaad64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 16/31] fix: a new document's root element keeps no namespaces
 inherited elsewhere

---
 src/dom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 52616cc..a2fd838 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -68,6 +68,9 @@ Constructs a new Document with the given root element and default declaration
 Full constructor with required root element and optional XML declaration and optional list of one or more document type definition (DTD) items.
 	 */
 	pub fn new_with_decl_dtd(root: Element, declaration: Option<Declaration>, dtd: Option<&[DTD]>) -> Self {
+		// a root element has no parent to inherit namespaces from
+		let mut root = root;
+		root.set_namespace_context(HashMap::new());
 		Self{
 			declaration: declaration,
 			dtds: match dtd{
-- 
2.43.0


From 29dd0066d59f36b178c0f2965b8027e6f951d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 17/31] fix: refuse a declaration that follows another
 declaration or a comment

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c91be00..7026075 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -410,7 +410,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		}
 		let slice = &buffer[tag_start..tag_end];
 		if slice.starts_with("<?xml") {
-			if tag_span.0 != 0 {
+			if tag_span.1 != 0 {
 				let (line, col) = line_and_column(&buffer, tag_start);
 				return Err(errors::ParsingError::new(format!(
 					"<?xml ...?> declaration must at start of XML (syntax error on line {line}, column {col})"
-- 
2.43.0


From 160981aaa456fbf74c43f6b7fae513e0db6bf7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 18/31] fix: refuse text after the root element like text
 before it

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7026075..5385a99 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -462,6 +462,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		let next_span = next_tag(&buffer, tag_span.1);
 		if next_span.0.is_none() {
 			// EoF
+			if parse_stack.empty_stack() && real_text(&buffer[tag_span.1..]).is_some() {
+				let (line, col) = line_and_column(&buffer, tag_span.1);
+				return Err(errors::ParsingError::new(format!(
+					"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+				)).into());
+			}
 			break
 		} else if next_span.1.is_none() {
 			// broken tag?
-- 
2.43.0


From 37584a83915406f90de679331fae8fcc89c25449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 19/31] fix: comments after the root element are ignored like
 those before it

---
 src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5385a99..666a55f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -477,7 +477,8 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		} else {
 			// next tag
-			if selfclosing_root {
+			let is_comment = (&buffer[next_span.0.unwrap()..]).starts_with("<!--");
+			if selfclosing_root && !is_comment {
 				// next tag not allowed
 				let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
 				return Err(errors::ParsingError::new(format!(
@@ -509,7 +510,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		};
 		// parse span
 		let slice = &buffer[tag_span.0 .. tag_span.1];
-		if slice.starts_with("<!--") && slice.ends_with("-->") {
+		if slice.starts_with("<!--") && parse_stack.empty_stack() {
+			// comments outside root element not supported
+			if no_comment_warn == 0 {
+				warn(format_args!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32)));
+			}
+			no_comment_warn += 1;
+		} else if slice.starts_with("<!--") && slice.ends_with("-->") {
 			// comment
 			let begin = 4;
 			let end = slice.len().saturating_sub(3);
-- 
2.43.0


From 85cee9d4e1cfa60d8b28befa7cee3a16e7cfdda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:07 +0000
Subject: [PATCH 20/31] fix: a quote in a comment inside a DTD does not begin
 quoted text

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 666a55f..f71aaf5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -856,12 +856,17 @@ fn quote_aware_find(text: &str, pattern: &str, from: usize) -> Option<usize> {
 	None
 }
 
-/// like `quote_aware_find()` above, but the pattern is '>' and it skips both quoted content and nested <tags>
+/// like `quote_aware_find()` above, but the pattern is '>' and it skips quoted content, comments, and nested <tags>
 fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 	let mut depth: i32 = 0;
 	let mut in_quote = false;
 	let mut quote_char = '\0';
+	let mut comment_end: usize = 0;
 	for (i, c) in text[from..].char_indices() {
+		if from + i < comment_end {
+			// inside a comment
+			continue;
+		}
 		if in_quote {
 			if c == quote_char { // end of quoted field
 				in_quote = false;
@@ -873,6 +878,9 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 			} else if c == '\'' { // start of single-quoted field
 				quote_char = '\'';
 				in_quote = true;
+			} else if text[(from + i)..].starts_with("<!--") {
+				let comment_start = from + i + 4;
+				comment_end = comment_start + text[comment_start..].find("-->")? + 3;
 			} else if c == '<' {
 				depth += 1;
 			} else if c == '>' {
-- 
2.43.0


From 64241580ba26b4e5701e375c3eae33ac425c2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 21/31] fix: names may begin with any letter that XML allows
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The name pattern only allowed ASCII letters first, so that documents with
elements such as <été> were refused.
---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index a2fd838..392c380 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -409,7 +409,7 @@ pub fn node_eq(n1: &Box<dyn Node>, n2: &Box<dyn Node>) -> bool {
 }
 
 /// pattern for valid element and attribute names (see https://www.w3.org/TR/REC-xml/#NT-NameChar)
-const NAME_PATTERN: &str = r#"^[_a-zA-Z][:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]*$"#;
+const NAME_PATTERN: &str = r#"^[A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}][:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]*$"#;
 
 /// Represents an XML element with a name, text content, attributes, xmlns namespace (with optional prefix), and children.
 pub struct Element {
-- 
2.43.0


From 6446ab03d3f72156a73607513b55ae4f1ee07cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 22/31] fix: refuse attributes with no white space between them

<a b="1"c="2"/> was read as one attribute with the value 1"c="2.
---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f71aaf5..f2572ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -686,7 +686,15 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 				"invalid XML syntax on line {line}, column {col}: attribute value must be quoted with single or double quotes"
 			)).into());
 		}
+		let quote = &v[..1];
 		v = &v[1..(v.len()-1)]; // remove quotes
+		if v.contains(quote) {
+			// syntax error (eg 'a="1"b="2"' with no whitespace between the attributes)
+			let (line, col) = line_and_column(&buffer, tag_span.0);
+			return Err(errors::ParsingError::new(format!(
+				"invalid XML syntax on line {line}, column {col}: attributes must be separated by whitespace"
+			)).into());
+		}
 		attrs.insert(k.to_string(), unescape(v.to_string()));
 	}
 	// parse name and namespace
-- 
2.43.0


From 7f2cea39e029c3d4edc72fa7a77f0cd0a3372689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 23/31] fix: refuse an attribute given more than once

One of the two values was dropped without a word.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f2572ce..4c6ecc7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -695,7 +695,12 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 				"invalid XML syntax on line {line}, column {col}: attributes must be separated by whitespace"
 			)).into());
 		}
-		attrs.insert(k.to_string(), unescape(v.to_string()));
+		if attrs.insert(k.to_string(), unescape(v.to_string())).is_some() {
+			let (line, col) = line_and_column(&buffer, tag_span.0);
+			return Err(errors::ParsingError::new(format!(
+				"invalid XML syntax on line {line}, column {col}: attribute '{k}' is given more than once"
+			)).into());
+		}
 	}
 	// parse name and namespace
 	let mut name = components[0].as_str();
-- 
2.43.0


From b724ea31c51605b359ac7a7f694174a489061491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 24/31] fix: refuse </a/> as a closing tag

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4c6ecc7..ecbcc61 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -581,7 +581,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 						))
 					})?;
 				let open_tagname = active_element.tag_name();
-				if tag_def != open_tagname {
+				if tag_def != open_tagname || slice.ends_with("/>") {
 					let (line, col) = line_and_column(&buffer, tag_span.0);
 					return Err(errors::ParsingError::new(format!(
 						"closing tag {slice} does not match <{open_tagname}> (syntax error on line {line}, column {col})"
-- 
2.43.0


From 41f06c681d34fb53f8ffad4e3be8223fb5d43bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 25/31] fix: share xmlns definitions between elements instead
 of copying them

Every element kept its own copy of all xmlns definitions in scope, so the memory
and time a message took grew with the product of its declarations and elements:
38 kB with 2000 of each took 650 MB. The definitions are now kept once, in the
scope of the element that makes them, which the elements under it share.
---
 src/dom.rs | 104 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 59 insertions(+), 45 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 392c380..4946821 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -42,6 +42,7 @@ use std::fmt::Formatter;
 
 use std::hash::{Hash, Hasher};
 use std::path::Path;
+use std::rc::Rc;
 use regex::Regex;
 use crate::errors::*;
 
@@ -70,7 +71,7 @@ Full constructor with required root element and optional XML declaration and opt
 	pub fn new_with_decl_dtd(root: Element, declaration: Option<Declaration>, dtd: Option<&[DTD]>) -> Self {
 		// a root element has no parent to inherit namespaces from
 		let mut root = root;
-		root.set_namespace_context(HashMap::new());
+		root.set_namespace_context(Default::default());
 		Self{
 			declaration: declaration,
 			dtds: match dtd{
@@ -411,6 +412,34 @@ pub fn node_eq(n1: &Box<dyn Node>, n2: &Box<dyn Node>) -> bool {
 /// pattern for valid element and attribute names (see https://www.w3.org/TR/REC-xml/#NT-NameChar)
 const NAME_PATTERN: &str = r#"^[A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}][:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]*$"#;
 
+/// The xmlns definitions in scope at some place in the DOM: those of the innermost element that has any, then those of
+/// the elements around it. Shared by all elements for which they are the same.
+#[derive(Default)]
+pub(crate) struct NamespaceScope {
+	/// definitions made by one element (default xmlns is saved as prefix "")
+	definitions: HashMap<String, String>,
+	/// definitions it inherited
+	outer: Option<Rc<NamespaceScope>>
+}
+
+impl NamespaceScope {
+	/// adds the given definitions (if there are any) to a scope
+	fn extended(outer: &Rc<NamespaceScope>, definitions: HashMap<String, String>) -> Rc<NamespaceScope> {
+		match definitions.is_empty() {
+			true => outer.clone(),
+			false => Rc::new(NamespaceScope{definitions, outer: Some(outer.clone())})
+		}
+	}
+	/// finds the namespace for a prefix
+	fn get(&self, prefix: &str) -> Option<&String> {
+		let mut scope = self;
+		loop {
+			if let Some(ns) = scope.definitions.get(prefix) {return Some(ns);}
+			scope = scope.outer.as_ref()?;
+		}
+	}
+}
+
 /// Represents an XML element with a name, text content, attributes, xmlns namespace (with optional prefix), and children.
 pub struct Element {
 	/// Name of this element
@@ -419,12 +448,12 @@ pub struct Element {
 	child_nodes: Vec<Box<dyn Node>>,
 	/// This element's attributes
 	attributes: HashMap<String, String>,
-	/// optional xmlns (if xmlns_prefix is None then this is default namespace)
-	xmlns: Option<String>,
 	/// optional xmlns (if xmlns_prefix is None then the xmlns is default namespace)
 	xmlns_prefix: Option<String>,
-	/// xmlns definitions inherited from parent elements, if any (default xmlns is saved as prefix "")
-	xmlns_context: HashMap<String, String>
+	/// xmlns definitions inherited from parent elements, if any
+	xmlns_context: Rc<NamespaceScope>,
+	/// xmlns definitions inherited from parent elements and those of this element
+	xmlns_scope: Rc<NamespaceScope>
 }
 
 impl Element {
@@ -464,39 +493,22 @@ impl Element {
 			}
 		}
 		// xmlns check
-		let mut xmlns = xmlns;
-		if let Some(ns) = &xmlns {
+		if let Some(ns) = xmlns {
 			// overrides any xmlns definition in the attributes
 			let key = match &xmlns_prefix {
 				None => "xmlns".to_string(),
 				Some(prefix) => format!("xmlns:{prefix}")
 			};
-			attrs.insert(key, ns.clone());
-		} else {
-			match &xmlns_prefix {
-				None => {
-					// default xmlns
-					xmlns = match attrs.get("xmlns"){
-						None => None,
-						Some(ns) => Some(ns.to_string())
-					}
-				},
-				Some(prefix) => {
-					// prefixed xmlns
-					xmlns = match attrs.get(&format!("xmlns:{prefix}")){
-						None => None,
-						Some(ns) => Some(ns.to_string())
-					}
-				}
-			};
+			attrs.insert(key, ns);
 		}
 		// set the XML NS from the attributes and provided args
+		let xmlns_context: Rc<NamespaceScope> = Default::default();
 		let mut elem = Self {
 			name: name,
 			child_nodes: Vec::new(),
-			xmlns_context: HashMap::new(),
+			xmlns_scope: NamespaceScope::extended(&xmlns_context, Element::xmlns_context_from_attributes(&attrs)),
+			xmlns_context: xmlns_context,
 			attributes: attrs,
-			xmlns: xmlns.map(|s| s.to_string()),
 			xmlns_prefix: xmlns_prefix.map(|s| s.to_string())
 		};
 		// finally, add children
@@ -643,14 +655,18 @@ impl Element {
 	Returns the namespace of this element, or `None` if it does not have a namespace. If this element has a namespace but `namespace_prefix()` returns `None`, then the namespace is a default namespace (no prefix, can be inherited by children).
 	 */
 	pub fn namespace(&self) -> Option<String> {
-		self.xmlns.clone()
+		self.xmlns().cloned()
+	}
+	/** Finds the namespace of this element in the xmlns definitions in scope */
+	fn xmlns(&self) -> Option<&String> {
+		self.xmlns_scope.get(self.xmlns_prefix.as_deref().unwrap_or(""))
 	}
 	/**
 	Returns the default namespace of this element, or `None` if it does not have a default namespace. Default namespaces do not use prefixes and are inherited by the element's children.
 	 */
 	pub fn default_namespace(&self) -> Option<String> {
 		match self.xmlns_prefix{
-			None => self.xmlns.clone(),
+			None => self.xmlns().cloned(),
 			Some(_) => None
 		}
 	}
@@ -702,7 +718,7 @@ impl Element {
 	 */
 	pub fn elements_by_namespace(&self, namespace: Option<&str>) -> impl Iterator<Item = &Element>{
 		let ns = namespace.map(|s| s.to_string());
-		self.child_elements().filter(move |c| c.xmlns == ns)
+		self.child_elements().filter(move |c| c.xmlns() == ns.as_ref())
 	}
 	/** Returns a list (as an iterator) of all child elements that belong to the given XML namespace. This search is non-recursive, meaning that it only returns children of this element, not children-of-children.
 
@@ -738,7 +754,7 @@ impl Element {
 	 */
 	pub fn elements_by_namespace_mut(&mut self, namespace: Option<&str>) -> impl Iterator<Item = &mut Element>{
 		let ns = namespace.map(|s| s.to_string());
-		self.child_elements_mut().filter(move |c| c.xmlns == ns)
+		self.child_elements_mut().filter(move |c| c.xmlns() == ns.as_ref())
 	}
 	/**
 	Returns a list (as an iterator) of all child elements that belong to the given XML namespace according to the namespace's prefix (eg `<svg:g xmlns:svg="http://www.w3.org/2000/svg">`). This search is non-recursive, meaning that it only returns children of this element, not children-of-children. For a recursive search, use [search_elements(...)](search_elements()) instead.
@@ -820,24 +836,22 @@ impl Element {
 		}
 	}
 	/** Gets any and all xmlns definitions relevant to this element (default xmlns is saved as prefix ""). This includes both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
-	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {
-		let mut context = self.xmlns_context.clone();
-		// local definitions override inherited ones
-		context.extend(Self::xmlns_context_from_attributes(&self.attributes));
-		context
+	pub(crate) fn get_namespace_context(&self) -> Rc<NamespaceScope> {
+		self.xmlns_scope.clone()
 	}
 	/** Sets any and all xmlns definitions this element should inherit, replacing any that it inherited before, then resolves the namespaces of this element and of all elements under it. */
-	pub(crate) fn set_namespace_context(&mut self, parent_context: HashMap<String, String>) {
+	pub(crate) fn set_namespace_context(&mut self, parent_context: Rc<NamespaceScope>) {
 		self.xmlns_context = parent_context;
 		self.resolve_namespaces();
 	}
 	/** Resolves the namespaces of this element and of all elements under it from their attributes and the inherited xmlns definitions */
 	fn resolve_namespaces(&mut self) {
-		let context = self.get_namespace_context();
-		self.xmlns = context.get(self.xmlns_prefix.as_deref().unwrap_or("")).map(String::clone);
+		// local definitions override inherited ones
+		let context = NamespaceScope::extended(&self.xmlns_context, Self::xmlns_context_from_attributes(&self.attributes));
 		for child in self.child_elements_mut() {
 			child.set_namespace_context(context.clone());
 		}
+		self.xmlns_scope = context;
 	}
 	/** flips the order of child nodes (non-recursive) */
 	pub(crate) fn reverse_children(&mut self) {
@@ -1183,7 +1197,7 @@ impl Element {
 		self.cleanup_text_nodes();
 	}
 	/** Applies this element's context to the given child */
-	fn apply_xmlns_context_to_child_node(xmlns_context: HashMap<String, String>, node: &mut Box<dyn Node>) {
+	fn apply_xmlns_context_to_child_node(xmlns_context: Rc<NamespaceScope>, node: &mut Box<dyn Node>) {
 		let is_element = node.is_element();
 		if is_element {
 			// update xmlns context if we just added an element
@@ -1571,9 +1585,9 @@ impl Clone for Element {
 			name: self.name.clone(),
 			child_nodes: new_children,
 			attributes: self.attributes.clone(),
-			xmlns: self.xmlns.clone(),
 			xmlns_prefix: self.xmlns_prefix.clone(),
 			xmlns_context: self.xmlns_context.clone(),
+			xmlns_scope: self.xmlns_scope.clone(),
 		}
 	}
 }
@@ -1584,9 +1598,9 @@ impl Default for Element {
 			name: "x".to_string(),
 			child_nodes: Vec::new(),
 			attributes: Default::default(),
-			xmlns: None,
 			xmlns_prefix: None,
-			xmlns_context: HashMap::new(),
+			xmlns_context: Default::default(),
+			xmlns_scope: Default::default(),
 		}
 	}
 }
@@ -1599,7 +1613,7 @@ impl PartialOrd for Element {
 
 impl PartialEq<Self> for Element {
 	fn eq(&self, other: &Self) -> bool {
-		if self.name == other.name && self.xmlns == other.xmlns
+		if self.name == other.name && self.xmlns() == other.xmlns()
 			&& self.xmlns_prefix == other.xmlns_prefix
 			&& self.attributes == other.attributes
 			&& self.child_nodes.len() == other.child_nodes.len() {
@@ -1617,7 +1631,7 @@ impl PartialEq<Self> for Element {
 impl Hash for Element {
 	fn hash<H: Hasher>(&self, state: &mut H) {
 		self.name.hash(state);
-		self.xmlns.hash(state);
+		self.xmlns().hash(state);
 	}
 }
 
-- 
2.43.0


From 9b1b18e9fb707778f2346ae9563e8e6ab85864ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 26/31] fix: unescape in one pass

Each escape sequence copied the rest of the text twice, so 1 MB of escapes took
more than 20 seconds to read.
---
 src/lib.rs | 88 ++++++++++++++++++------------------------------------
 1 file changed, 29 insertions(+), 59 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ecbcc61..3787f17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -277,60 +277,38 @@ pub fn escape(text: impl Into<String>) -> String {
 /// to regenerate the original text, eg replacing "&amp;amp;" with "&" and "&amp;lt;"
 /// with "<"
 pub fn unescape(text: impl Into<String>) -> String {
-	let mut buffer: String = text.into();
-	let mut last_i: usize = 0;
-	loop {
-		if last_i >= buffer.len(){break;}
-		match (&buffer[last_i..]).find("&") {
-			None => break,
-			Some(i) => {
-				let i = i+last_i;
-				let start = i;
-				let slice = (&buffer[i..]).to_string();
-				let mut char_size: usize = 1;
-				for (j, k) in slice.char_indices() {
-					if k == ';' {
-						let end = i + j + 1;
-						let slice = &slice[..j];
-						// note: trailing ; omitted from this slice
-						if slice == "&amp" {
-							string_insert(&mut buffer, (start, end), "&");
-						}
-						if slice == "&lt" {
-							string_insert(&mut buffer, (start, end), "<");
-						}
-						if slice == "&gt" {
-							string_insert(&mut buffer, (start, end), ">");
-						}
-						if slice == "&apos" {
-							string_insert(&mut buffer, (start, end), "'");
-						}
-						if slice == "&quot" {
-							string_insert(&mut buffer, (start, end), "\"");
-						}
-						if slice.starts_with("&#") {
-							match u32::from_str_radix(&slice[2..], 16) {
-								Ok(codepoint) => {
-									match char::from_u32(codepoint) {
-										Some(unicode) => {
-											let unicode_str = unicode.to_string();
-											string_insert(&mut buffer, (start, end), unicode_str.as_str());
-											char_size = unicode.len_utf8();
-										},
-										None => { /* do nothing */ }
-									}
-								}
-								Err(_) => { /* do nothing */ }
-							}
-						}
-						// an escape sequence ends at the first semicolon
-						break;
-					}
-				}
-				last_i = i+char_size;
+	let text: String = text.into();
+	let mut buffer = String::with_capacity(text.len());
+	let mut rest = text.as_str();
+	while let Some(start) = rest.find('&') {
+		buffer.push_str(&rest[..start]);
+		rest = &rest[start..];
+		// an escape sequence ends at the first semicolon (and does not contain another &)
+		let end = rest[1..].find(&[';', '&'][..]).map(|i| i + 1).filter(|i| rest[*i..].starts_with(';'));
+		let unescaped = match end.map(|i| &rest[..i]) { // note: trailing ; omitted from this slice
+			Some("&amp") => Some('&'),
+			Some("&lt") => Some('<'),
+			Some("&gt") => Some('>'),
+			Some("&apos") => Some('\''),
+			Some("&quot") => Some('"'),
+			Some(slice) => slice.strip_prefix("&#")
+				.and_then(|digits| u32::from_str_radix(digits, 16).ok())
+				.and_then(char::from_u32),
+			None => None
+		};
+		match (unescaped, end) {
+			(Some(c), Some(end)) => {
+				buffer.push(c);
+				rest = &rest[(end + 1)..];
+			}
+			_ => {
+				// not an escape sequence
+				buffer.push('&');
+				rest = &rest[1..];
 			}
 		}
 	}
+	buffer.push_str(rest);
 	buffer
 }
 
@@ -352,14 +330,6 @@ pub(crate) fn attribute_order(kv_tup1: &(&String, &String), kv_tup2: &(&String,
 	}
 }
 
-/// replaces indices (a, b) in given string with a new string (in-place)
-fn string_insert(buffer: &mut String, indices: (usize, usize), insert: &str) {
-	let back = (&buffer[indices.1..]).to_string();
-	buffer.truncate(indices.0);
-	buffer.push_str(insert);
-	buffer.push_str(back.as_str());
-}
-
 /** Reads the file from the given filepath and parses it as an XML document
 */
 pub fn parse_filepath(path: impl AsRef<Path>) -> Result<dom::Document, errors::KissXmlError> {
-- 
2.43.0


From 3d1004390a4c03536961e2a212e995a411aeb449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 27/31] fix: serialise and gather text into one buffer

Each level of elements copied the whole string made by the level below it, so
the work grew with the product of the size and the depth: 4000 levels took more
than a minute to write.
---
 src/dom.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 4946821..8a6d7bf 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1430,10 +1430,27 @@ impl Element {
 		self.remove_elements(move |e| e.name == n)
 	}
 
+	/// Appends the text of this element and of all elements under it to the given buffer
+	fn append_text(&self, out: &mut String) {
+		// Note: this is recursive, but only elements and text nodes
+		for c in &self.child_nodes {
+			if let Ok(e) = c.as_element() {
+				e.append_text(out);
+			} else if let Ok(t) = c.as_text() {
+				out.push_str(t.content.as_str());
+			}
+		}
+	}
+
 	/// Implementation of writing DOM to XML string
 	/// (inline = true to bypass pretty-printing
-	fn to_string_with_prefix_and_indent(&self, prefix: &str, indent: &str, mut inline: bool) -> String {
+	fn to_string_with_prefix_and_indent(&self, prefix: &str, indent: &str, inline: bool) -> String {
 		let mut out = String::new();
+		self.write_with_prefix_and_indent(&mut out, prefix, indent, inline);
+		return out;
+	}
+	/// Appends this element's XML string to the given buffer
+	fn write_with_prefix_and_indent(&self, out: &mut String, prefix: &str, indent: &str, mut inline: bool) {
 		if !inline {out.push_str(prefix)}
 		// tag name
 		let tag_name = self.tag_name();
@@ -1485,10 +1502,8 @@ impl Element {
 					out.push_str(text.as_str());
 				} else if c.is_element() {
 					// child element, recurse
-					out.push_str(
-						c.as_element().expect("logic error")
-							.to_string_with_prefix_and_indent(next_prefix.as_str(), indent, inline).as_str()
-					);
+					c.as_element().expect("logic error")
+						.write_with_prefix_and_indent(out, next_prefix.as_str(), indent, inline);
 				} else {
 					// other
 					if !(inline) {out.push_str(next_prefix.as_str());}
@@ -1502,7 +1517,6 @@ impl Element {
 			out.push_str(tag_name.as_str());
 			out.push_str(">");
 		}
-		return out;
 	}
 
 }
@@ -1510,13 +1524,8 @@ impl Element {
 impl Node for Element {
 
 	fn text(&self) -> String {
-		// Note: this is recursive, but only elements and text nodes
 		let mut builder = String::new();
-		for c in &self.child_nodes {
-			if c.is_text() || c.is_element() {
-				builder.push_str(c.text().as_str())
-			}
-		}
+		self.append_text(&mut builder);
 		builder
 	}
 
-- 
2.43.0


From 2a4dfb9531427447640b927288d0e12844a733c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 28/31] fix: compile regular expressions once

The singletons were constants, so each use made a new one: every name and every
piece of text compiled its pattern anew, which took hundreds of kilobytes and
half a millisecond per element (1 minute for a message of 400 kB).
---
 src/dom.rs | 20 ++++++++------------
 src/lib.rs | 12 +++++-------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 8a6d7bf..f3de82f 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -35,7 +35,6 @@ fn main() -> Result<(), kiss_xml::errors::KissXmlError> {
 */
 
 use std::any::Any;
-use std::cell::OnceCell;
 use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::fmt::Formatter;
@@ -43,6 +42,7 @@ use std::fmt::Formatter;
 use std::hash::{Hash, Hasher};
 use std::path::Path;
 use std::rc::Rc;
+use std::sync::OnceLock;
 use regex::Regex;
 use crate::errors::*;
 
@@ -412,6 +412,9 @@ pub fn node_eq(n1: &Box<dyn Node>, n2: &Box<dyn Node>) -> bool {
 /// pattern for valid element and attribute names (see https://www.w3.org/TR/REC-xml/#NT-NameChar)
 const NAME_PATTERN: &str = r#"^[A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}][:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]*$"#;
 
+/// singleton regex matcher
+static NAME_CHECKER_SINGLETON: OnceLock<Regex> = OnceLock::new();
+
 /// The xmlns definitions in scope at some place in the DOM: those of the innermost element that has any, then those of
 /// the elements around it. Shared by all elements for which they are the same.
 #[derive(Default)]
@@ -999,12 +1002,9 @@ impl Element {
 	}
 
 
-	/// singleton regex matcher
-	const ATTR_NAME_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 	/// Checks if an attribute name is valid
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
-		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
-		let checker = singleton.get_or_init(
+		let checker = NAME_CHECKER_SINGLETON.get_or_init(
 			|| Regex::new(NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
@@ -1013,12 +1013,9 @@ impl Element {
 			Err(InvalidAttributeName::new(format!("'{}' is not a valid attribute name", name)))
 		}
 	}
-	/// singleton regex matcher
-	const NAME_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 	/// Checks if an attribute name is valid
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
-		let singleton = Element::NAME_CHECKER_SINGLETON;
-		let checker = singleton.get_or_init(
+		let checker = NAME_CHECKER_SINGLETON.get_or_init(
 			|| Regex::new(NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
@@ -1665,7 +1662,7 @@ pub struct Text {
 }
 
 /// singleton regex matcher
-const WSP_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
+static WSP_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 
 impl Text {
 	/** Construct a new Text node from the provided string-like object */
@@ -1684,8 +1681,7 @@ impl Text {
 
 	/// checks if this Text node contains only whitespace
 	fn is_whitespace(&self) -> bool {
-		let singleton = WSP_MATCHER_SINGLETON;
-		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^\s+$"#).unwrap());
+		let wsp_matcher = WSP_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^\s+$"#).unwrap());
 		wsp_matcher.is_match(self.content.as_str())
 	}
 }
diff --git a/src/lib.rs b/src/lib.rs
index 3787f17..a5fef0b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -233,12 +233,12 @@ as-is or with modification, without any limitations.
 
  */
 
-use std::cell::{OnceCell};
 use std::cmp::Ordering;
 use std::collections::{HashMap, VecDeque};
 use std::fs;
 use std::io::{Read, Write};
 use std::path::Path;
+use std::sync::OnceLock;
 use regex::Regex;
 use crate::errors::KissXmlError;
 
@@ -732,11 +732,10 @@ fn strip_tag(tag: &str) -> String {
 
 
 /// singleton regex matcher
-const ELEM_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
+static ELEM_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 /// checks if a tag has valid syntax for an element (does not parse)
 fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
-	let singleton = ELEM_MATCHER_SINGLETON;
-	let matcher = singleton.get_or_init(||{
+	let matcher = ELEM_MATCHER_SINGLETON.get_or_init(||{
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
@@ -879,13 +878,12 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 
 
 /// singleton regex matcher
-const IS_BLANK_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
+static IS_BLANK_MATCHER_SINGLETON: OnceLock<Regex> = OnceLock::new();
 /// extracts the actual text from a string slice,
 /// returning None if it is all whitespace
 fn real_text(text: &str) -> Option<String> {
 	// check for empty string
-	let singleton = IS_BLANK_MATCHER_SINGLETON;
-	let matcher = singleton.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
+	let matcher = IS_BLANK_MATCHER_SINGLETON.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
 	if matcher.is_match(text) {
 		return None;
 	}
-- 
2.43.0


From d40f4801ac6fa651156cd659aa7fb365563e01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 29/31] fix: remove blank texts in one pass

Removing them one by one moved all children after each, so the time grew with
the square of the number of children (a message of 4 MB took minutes).
---
 src/dom.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index f3de82f..ce70eaf 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1223,17 +1223,7 @@ impl Element {
 			return;
 		}
 		// remove text nodes that are whitespace
-		assert!(self.child_nodes.len() > 0, "logic error: self.child_nodes should never be empty here!");
-		let mut index = self.child_nodes.len() - 1;
-		loop {
-			if self.child_nodes[index].is_text()
-				&& self.child_nodes[index]
-				.as_text().expect("logic error").is_whitespace() {
-				self.child_nodes.remove(index);
-			}
-			if index == 0 {break;}
-			index = index.wrapping_sub(1);
-		}
+		self.child_nodes.retain(|n| !n.as_text().is_ok_and(|t| t.is_whitespace()));
 		// Done.
 	}
 	/**
-- 
2.43.0


From e2694e89f41623a86b319fcef9f48c99ea42e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 30/31] fix: errors name the line and column of the tag or text
 they are about

Columns were one too high, and text outside the root element was reported
at the tag before or after it.
---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a5fef0b..a09c0be 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -373,7 +373,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		let tag_end = tag_end.unwrap();
 		let text_between = &buffer[tag_span.1..tag_start];
 		if real_text(text_between).is_some() {
-			let (line, col) = line_and_column(&buffer, tag_span.1);
+			let (line, col) = line_and_column(&buffer, tag_start - text_between.trim_start().len());
 			return Err(errors::ParsingError::new(format!(
 				"Text outside the root element is not supported (syntax error on line {line}, column {col})"
 			)).into());
@@ -433,7 +433,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		if next_span.0.is_none() {
 			// EoF
 			if parse_stack.empty_stack() && real_text(&buffer[tag_span.1..]).is_some() {
-				let (line, col) = line_and_column(&buffer, tag_span.1);
+				let (line, col) = line_and_column(&buffer, buffer.len() - buffer[tag_span.1..].trim_start().len());
 				return Err(errors::ParsingError::new(format!(
 					"Text outside the root element is not supported (syntax error on line {line}, column {col})"
 				)).into());
@@ -471,7 +471,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			Some(content) => {
 				parse_stack.append(dom::Text::new(content))
 					.map_err(|e|{
-						let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
+						let (line, col) = line_and_column(&buffer, tag_span.0 - text.trim_start().len());
 						errors::ParsingError::new(format!(
 							"{} (syntax error on line {line}, column {col})", e
 						))
@@ -896,12 +896,12 @@ fn line_and_column(text: &String, pos: usize) -> (usize, usize){
 	let mut line = 1;
 	let mut col = 1;
 	for (i, c) in text.char_indices(){
+		if i >= pos {break;}
 		col += 1;
 		if c == '\n' {
 			line += 1;
 			col = 1;
 		}
-		if i >= pos {break;}
 	}
 	(line, col)
 }
-- 
2.43.0


From b7346fe5eb01b76d908837e5d2d85a7792709647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 31/31] fix: joining many texts takes time and memory in
 proportion to them

Adjacent text nodes were merged from back to front by concatenating, so that
attaching a node to an element whose n texts had become neighbours (or appending
to a long text again and again) copied on the order of n^2 bytes. Looking for
text no longer makes an error message for every other node either.
---
 src/dom.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index ce70eaf..77ae176 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1205,25 +1205,21 @@ impl Element {
 	pub(crate) fn cleanup_text_nodes(&mut self) {
 		// check if there are children
 		if self.child_nodes.len() == 0 {return;}
-		// merge sequential text nodes (back-to-front order for performance)
-		let mut index = self.child_nodes.len() - 1;
-		while index > 0 {
-			if self.child_nodes[index].is_text()
-			&& self.child_nodes[index-1].is_text() {
-				// index-1 and index are text nodes, merge them
-				let back = self.child_nodes.remove(index);
-				let front = self.child_nodes.remove(index-1);
-				let merged = Text::concat(front.as_text().expect("logic error"), back.as_text().expect("logic error"));
-				self.child_nodes.insert(index-1, merged.boxed());
+		// merge sequential text nodes
+		self.child_nodes.dedup_by(|back, front| {
+			let both_text = back.is_text() && front.is_text();
+			if both_text {
+				let back = back.as_text().expect("logic error");
+				front.as_text_mut().expect("logic error").content.push_str(back.content.as_str());
 			}
-			index -= 1;
-		}
+			both_text
+		});
 		// all whitespace is significant in an element that has text
-		if self.child_nodes.iter().any(|n| n.as_text().is_ok_and(|t| !t.content.trim().is_empty())) {
+		if self.child_nodes.iter().any(|n| n.is_text() && !n.as_text().expect("logic error").content.trim().is_empty()) {
 			return;
 		}
 		// remove text nodes that are whitespace
-		self.child_nodes.retain(|n| !n.as_text().is_ok_and(|t| t.is_whitespace()));
+		self.child_nodes.retain(|n| !(n.is_text() && n.as_text().expect("logic error").is_whitespace()));
 		// Done.
 	}
 	/**
-- 
2.43.0


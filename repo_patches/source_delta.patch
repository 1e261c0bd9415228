From 29363a1d23031867ba24e6fed78fe355acb66774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 01/29] fix: unescape no longer skips or splits characters
 after '&' when the text ends in a multi-byte character

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1649a13..d8e4ef9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -287,9 +287,9 @@ pub fn unescape(text: impl Into<String>) -> String {
 				let i = i+last_i;
 				let start = i;
 				let slice = (&buffer[i..]).to_string();
+				// number of bytes to step over to get past this & (or whatever replaced it)
 				let mut char_size: usize = 1;
 				for (j, k) in slice.char_indices() {
-					char_size = k.len_utf8();
 					if k == ';' {
 						let end = i + j + 1;
 						let slice = &slice[..j];
-- 
2.43.0


From 3f71fed1a749929dbd6be3e0bd4c640a6a7d2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 02/29] fix: abbreviating a long non-ASCII comment or tag for a
 message no longer panics

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d8e4ef9..c02b558 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -606,9 +606,14 @@ fn abbreviate(text: &str, limit: usize) -> String {
 	if limit < 4 || text.len() <= limit {
 		text.to_string()
 	} else {
-		let mut buffer = (&text[0..(limit / 2 - 1)]).to_string();
+		// slicing must respect UTF-8 character boundaries
+		let mut front = limit / 2 - 1;
+		while !text.is_char_boundary(front) {front -= 1;}
+		let mut back = text.len() - limit / 2;
+		while !text.is_char_boundary(back) {back += 1;}
+		let mut buffer = (&text[0..front]).to_string();
 		buffer.push_str("…");
-		buffer.push_str(&text[(text.len() - limit / 2)..]);
+		buffer.push_str(&text[back..]);
 		buffer
 	}
 }
-- 
2.43.0


From 20eaf7e89a874c20f4ceeb9f8ff3e8a136e110c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:41 +0000
Subject: [PATCH 03/29] fix: Declaration::from_str("<?>") returns an error
 instead of panicking

---
 src/dom.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 62c623d..c9ade87 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2036,10 +2036,9 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.starts_with("<?") && buffer.ends_with("?>"){
-			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
-		} else {
-			Err(ParsingError::new("Invalid XML declaration syntax").into())
+		match buffer.strip_prefix("<?").and_then(|s| s.strip_suffix("?>")) {
+			Some(content) => Ok(Self{decl_str: content.to_string()}),
+			None => Err(ParsingError::new("Invalid XML declaration syntax").into())
 		}
 	}
 	/// Creates a new standard Declaration (UTF-8 encoded XML version 1)
-- 
2.43.0


From 84fdc98c4dd3cc79c2dd223850e83e49b4033628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 04/29] fix: write DTDs as complete <!DOCTYPE ...> declarations
 so that documents with a DTD survive serialization

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index c9ade87..22f46cd 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2088,6 +2088,6 @@ impl DTD {
 
 impl std::fmt::Display for DTD {
 	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-		write!(f, "{}", self.dtd_str)
+		write!(f, "<!DOCTYPE{}>", self.dtd_str)
 	}
 }
-- 
2.43.0


From a5e62dd9e3f47475679bede3307ac26d40914d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 05/29] fix: Element::insert applies the namespace context to
 the inserted node instead of to the last child

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 22f46cd..86861b3 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1278,7 +1278,7 @@ impl Element {
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
 			self.default_namespace(), self.xmlns_context.clone(),
-			self.child_nodes.last_mut().unwrap()
+			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
-- 
2.43.0


From 0eff3446276deab8f2f709f97675bf9ccad6711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:36 +0000
Subject: [PATCH 06/29] fix: content after the root element is handled like
 content before it

A second root element used to replace the first one (and adopt its children),
trailing text was dropped silently, and trailing comments were an error.
---
 src/lib.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c02b558..c65b309 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -460,6 +460,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		let next_span = next_tag(&buffer, tag_span.1);
 		if next_span.0.is_none() {
 			// EoF
+			if parse_stack.empty_stack() && real_text(&buffer[tag_span.1..]).is_some() {
+				// text after the end of the root element
+				let (line, col) = line_and_column(&buffer, tag_span.1);
+				return Err(errors::ParsingError::new(format!(
+					"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+				)).into());
+			}
 			break
 		} else if next_span.1.is_none() {
 			// broken tag?
@@ -469,15 +476,29 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		} else {
 			// next tag
-			if selfclosing_root {
-				// next tag not allowed
-				let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
+			last_span = tag_span;
+			tag_span = (next_span.0.unwrap(), next_span.1.unwrap());
+			if parse_stack.empty_stack() {
+				// root element is already closed, only comments are allowed (but ignored) after it
+				if real_text(&buffer[last_span.1 .. tag_span.0]).is_some() {
+					let (line, col) = line_and_column(&buffer, last_span.1);
+					return Err(errors::ParsingError::new(format!(
+						"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+					)).into());
+				}
+				let slice = &buffer[tag_span.0 .. tag_span.1];
+				if slice.starts_with("<!--") {
+					if no_comment_warn == 0 {
+						eprintln!("WARNING: Encountered comment {} outside of root element. Comments outside of the root are not supported and will be ignored.", abbreviate(slice, 32));
+					}
+					no_comment_warn += 1;
+					continue;
+				}
+				let (line, col) = line_and_column(&buffer, tag_span.0);
 				return Err(errors::ParsingError::new(format!(
 					"only 1 root element is allowed (syntax error on line {line}, column {col})"
 				)).into());
 			}
-			last_span = tag_span;
-			tag_span = (next_span.0.unwrap(), next_span.1.unwrap());
 		}
 		// get text since last tag
 		let text = &buffer[last_span.1 .. tag_span.0];
-- 
2.43.0


From ebe63e9650567644468e68f745338c1a2ca48b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 07/29] fix: accept whitespace around the '=' of any attribute,
 not only after a first unspaced one

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c65b309..1d3912c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -759,7 +759,7 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*=(".*?"|'.*?'))*\s*/?>"#);
+		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*\s*=\s*(".*?"|'.*?'))*\s*/?>"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
-- 
2.43.0


From cf263f3e02eb3cdc772ff5a6c7ca23408d59d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 08/29] fix: comments whose content starts with '>' or '->' can
 be read back

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1d3912c..20b58e4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -782,7 +782,8 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	let sub_buffer = &buffer[start_index..];
 	if sub_buffer.starts_with("<!--") {
 		// comment
-		return (start, sub_buffer.find("-->").map(|i|i+start_index+3));
+		// (the terminator cannot overlap the opening "<!--")
+		return (start, sub_buffer[4..].find("-->").map(|i|i+start_index+4+3));
 	} else if sub_buffer.starts_with("<?") {
 		// declaration, look for ?> but handle quoting
 		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
-- 
2.43.0


From 42d1a1b7f1e5bfe330570dfa2cdc25e7bf272f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 09/29] fix: empty text nodes are discarded like
 whitespace-only ones, as they cannot be represented in XML

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 86861b3..53b2b2f 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1656,7 +1656,7 @@ impl Text {
 	/// checks if this Text node contains only whitespace
 	fn is_whitespace(&self) -> bool {
 		let singleton = WSP_MATCHER_SINGLETON;
-		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^\s+$"#).unwrap());
+		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
 		wsp_matcher.is_match(self.content.as_str())
 	}
 }
-- 
2.43.0


From 04d5bcc2f528314ca516ada69fa33a3a7e7b9659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 10/29] fix: a second <?xml ...?> (or an <?xml-stylesheet
 ...?>) no longer replaces the XML declaration

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 20b58e4..9fcd269 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -408,7 +408,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		}
 		let slice = &buffer[tag_start..tag_end];
 		if slice.starts_with("<?xml") {
-			if tag_span.0 != 0 {
+			if tag_span.1 != 0 {
+				if slice.starts_with("<?xml-") {
+					// other processing instruction (eg xml-stylesheet)
+					eprintln!("WARNING: Ignoring {slice} (not supported)");
+					tag_span = (tag_start, tag_end);
+					continue;
+				}
 				let (line, col) = line_and_column(&buffer, tag_start);
 				return Err(errors::ParsingError::new(format!(
 					"<?xml ...?> declaration must at start of XML (syntax error on line {line}, column {col})"
-- 
2.43.0


From 14ad00a3729ac51297d53013b152efc2a70b657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 11/29] fix: attributes that are not separated by whitespace
 are a syntax error instead of one garbled attribute

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9fcd269..fb408fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -684,7 +684,15 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 				"invalid XML syntax on line {line}, column {col}: attribute value must be quoted with single or double quotes"
 			)).into());
 		}
+		let quote = &v[..1];
 		v = &v[1..(v.len()-1)]; // remove quotes
+		if v.contains(quote) {
+			// more than one quoted value, eg a="1"b="2"
+			let (line, col) = line_and_column(&buffer, tag_span.0);
+			return Err(errors::ParsingError::new(format!(
+				"invalid XML syntax on line {line}, column {col}: attributes must be separated by whitespace"
+			)).into());
+		}
 		attrs.insert(k.to_string(), unescape(v.to_string()));
 	}
 	// parse name and namespace
-- 
2.43.0


From b36ac265f47c903e3c13478326ca584c5cb350b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 12/29] fix: check element and attribute names against the XML
 name rules

Names holding markup characters (eg 'a>b', 'a/b', 'a=b') were accepted and
produced XML that cannot be read back, while valid names starting with a
non-ASCII letter were rejected. Namespace prefixes were not checked at all.
---
 src/dom.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 53b2b2f..1cc83ec 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -442,6 +442,9 @@ impl Element {
 		// sanity check
 		let name = name.into();
 		Element::check_elem_name(name.as_str())?;
+		if let Some(prefix) = &xmlns_prefix {
+			Element::check_elem_name(prefix.as_str())?;
+		}
 		// first, convert attributes to <String,String> map
 		let mut attrs: HashMap<String, String> = HashMap::new();
 		match attributes {
@@ -976,13 +979,18 @@ impl Element {
 	}
 
 
+	/// regex pattern for valid names, see https://www.w3.org/TR/REC-xml/#NT-Name
+	const NAME_PATTERN: &'static str = concat!(
+		r#"^[A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#,
+		r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]*$"#
+	);
 	/// singleton regex matcher
 	const ATTR_NAME_CHECKER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 	/// Checks if an attribute name is valid
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
 		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(Element::NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
@@ -996,7 +1004,7 @@ impl Element {
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
 		let singleton = Element::NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(Element::NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
-- 
2.43.0


From 9de881dc01b8b6775bc396cc3ebee2d8ad91ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 13/29] fix: a namespace passed to Element::new is written as
 an xmlns definition instead of being lost in serialization

---
 src/dom.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 1cc83ec..6273efa 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -476,6 +476,13 @@ impl Element {
 					}
 				}
 			};
+		} else if let Some(ns) = &xmlns {
+			// explicit namespace, overrides (and must be visible as) the xmlns definition
+			let key = match &xmlns_prefix {
+				None => "xmlns".to_string(),
+				Some(prefix) => format!("xmlns:{prefix}")
+			};
+			attrs.insert(key, ns.clone());
 		}
 		// set the XML NS from the attributes and provided args
 		let mut elem = Self {
-- 
2.43.0


From 3bff3c362d2efb5295325442597cf42b4ea64f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:37 +0000
Subject: [PATCH 14/29] fix: preserve whitespace between tags in elements that
 contain text, as documented

<p>a <b>b</b> <i>c</i></p> lost the space between </b> and <i>.
---
 src/dom.rs     |  15 ++-
 src/lib.rs     |   5 +-
 src/parsing.rs | 338 ++++++++++++++++++++++++-------------------------
 3 files changed, 185 insertions(+), 173 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 6273efa..0813f10 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -846,9 +846,14 @@ impl Element {
 			};
 		}
 	}
-	/** flips the order of child nodes (non-recursive) */
+	/** flips the order of child nodes (non-recursive), then cleans up the text nodes */
 	pub(crate) fn reverse_children(&mut self) {
 		self.child_nodes.reverse();
+		self.cleanup_text_nodes();
+	}
+	/** adds a node that already has its namespace context, without cleaning up the text nodes */
+	pub(crate) fn push_parsed_child(&mut self, node: Box<dyn Node>) {
+		self.child_nodes.push(node);
 	}
 	/** Returns a list of al child elements as an iterator */
 	pub fn child_elements(&self) ->  impl Iterator<Item = &Element>{
@@ -1203,7 +1208,7 @@ impl Element {
 			Some(xmlns_context)
 		);
 	}
-	/** Discards merges sequential text nodes and then whitespace-only text nodes */
+	/** Merges sequential text nodes and then discards whitespace-only text nodes (unless this element also contains actual text, in which case all whitespace is significant) */
 	fn cleanup_text_nodes(&mut self) {
 		// check if there are children
 		if self.child_nodes.len() == 0 {return;}
@@ -1221,12 +1226,16 @@ impl Element {
 			index -= 1;
 		}
 		// remove text nodes that are whitespace
+		let is_mixed = self.child_nodes.iter().any(
+			|n| n.as_text().map_or(false, |t| !t.is_whitespace())
+		);
 		assert!(self.child_nodes.len() > 0, "logic error: self.child_nodes should never be empty here!");
 		let mut index = self.child_nodes.len() - 1;
 		loop {
 			if self.child_nodes[index].is_text()
 				&& self.child_nodes[index]
-				.as_text().expect("logic error").is_whitespace() {
+				.as_text().expect("logic error").is_whitespace()
+				&& !(is_mixed && self.child_nodes[index].as_text().expect("logic error").content.len() > 0) {
 				self.child_nodes.remove(index);
 			}
 			if index == 0 {break;}
diff --git a/src/lib.rs b/src/lib.rs
index fb408fe..f865311 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -511,7 +511,10 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 
 		// if text is not empty, add text node
 		match real_text(text) {
-			None => {},
+			None => {
+				// keep whitespace for now, it is significant if the element also contains actual text
+				if !text.is_empty() {parse_stack.append(dom::Text::new(text))?;}
+			},
 			Some(content) => {
 				parse_stack.append(dom::Text::new(content))
 					.map_err(|e|{
diff --git a/src/parsing.rs b/src/parsing.rs
index 737ddb7..8e4c4ca 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,170 +1,170 @@
-/*!
- this module contains utilities exclusive to parsing
- */
-use std::cmp::Ordering;
-use std::collections::HashMap;
-use std::hash::Hasher;
-
-use crate::dom::*;
-use crate::errors::*;
-
-/** special tree data structure for parsing which uses ID's as keys in a HashMap to work around limitations in Rust's lifetime syntax. It is used like a stack, though internally it uses a HashMap based data arena */
-#[derive(Debug, Default)]
-pub struct ParseTree{
-	/** hold data in a non-tree format because Rust's lifetime syntax doesn't let you retrieve the lifetime from the parent of a node at runtime (lifetimes exist only at compile time, and even then there is no syntax for separately disentanlging reference-lifetimes from data-lifetimes) */
-	data: HashMap<usize, ParseTreeNode>,
-	/// current tip of the parsing tree, pointing to the "top" of the stack
-	pos: Option<usize>
-}
-
-impl ParseTree {
-	/// new parser tree
-	pub fn new() -> Self {
-		Self::default()
-	}
-	/// returns true if the simulated "stack" is empty, false otherwise. This can still return true
-	/// even if the internal HashMap is not empty
-	pub fn empty_stack(&self) -> bool {
-		match self.pos {
-			None => true,
-			Some(_) => false
-		}
-	}
-	/// push a new element to the stack
-	pub fn push(&mut self, new_element: Element) {
-		if self.pos.is_none() {
-			self.data.insert(0, ParseTreeNode{
-				id: 0,
-				value: Box::new(new_element),
-				parent_id: None,
-				child_ids: Vec::new(),
-			});
-			self.pos = Some(0);
-		} else {
-			let old_pos = self.pos.unwrap();
-			let new_pos = self.data.len();
-			self.data.get_mut(&old_pos).expect("logic error")
-				.child_ids.push(new_pos);
-			self.data.insert(new_pos, ParseTreeNode{
-				id: new_pos,
-				value: Box::new(new_element),
-				parent_id: Some(old_pos),
-				child_ids: Vec::new(),
-			});
-			self.pos = Some(new_pos);
-		}
-	}
-	/// pop the top element from the stack
-	pub fn pop(&mut self) -> Result<(), KissXmlError> {
-		if self.pos.is_none() {
-			return Err(ParsingError::new("closing tag without corresponding open tag").into());
-		}
-		let pos = self.pos.unwrap();
-		let new_pos = self.data
-			.get(&pos).expect("logic error").parent_id;
-		self.pos = new_pos;
-		Ok(())
-	}
-	/// append a node to the top element on the stack (without adding the new node to the stack)
-	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
-		if self.pos.is_none() {
-			return Err(ParsingError::new("no root element").into());
-		}
-		let pos = self.pos.unwrap();
-		let new_id = self.data.len();
-		self.data.get_mut(&pos).expect("logic error")
-			.child_ids.push(new_id);
-		self.data.insert(new_id, ParseTreeNode{
-			id: new_id,
-			value: Box::new(n),
-			parent_id: Some(pos),
-			child_ids: Vec::new(),
-		});
-		Ok(())
-	}
-	/// reference to the current element on top of the stack
-	pub fn top_element(&self) -> Option<&Element> {
-		match self.pos {
-			None => None,
-			Some(pos) => Some(
-				self.data.get(&pos).expect("logic error")
-					.value.as_element().expect("logic error")
-			)
-		}
-	}
-	/// converts the whole parse tree to a DOM, returning the root element
-	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
-		if self.data.is_empty() {
-			return Err(ParsingError::new("no root element").into());
-		}
-		// depth-first DOM construction
-		// the stack-based API ensures children always have higher ID number
-		// than their parents
-		// the challenge is that reverse index iteration will add children
-		// in opposite order
-		// solution is to flip the children when removing from the map
-		// (index 0 is root, so not included in loop)
-		for i in (1..self.data.len()).rev() {
-			let mut node = self.data.remove(&i).expect("logic error: missing index");
-			if node.value.is_element() {
-				// flip the children of element
-				node.value.as_element_mut().unwrap().reverse_children()
-			}
-			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
-			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
-				.value.as_element_mut().expect("logic error: parent is not an Element")
-				.append_boxed(node.value);
-		}
-		let root_node = self.data.remove(&0).expect("logic error: no root element");
-		let mut root = root_node.destruct();
-		// let mut e = **(root.as_any()
-		// 	.downcast_ref::<Box<Element>>()
-		// 	.expect("logic error: root is not an element"));
-		let e = root.as_element_mut().expect("logic error: root is not an element");
-		// flip children because they were added in reverse order
-		e.reverse_children();
-		// done
-		// use mem::take to do a "DerefMove" operation
-		return Ok(std::mem::take(e));
-	}
-}
-
-/** nodes in the parser tree */
-#[derive(Debug)]
-pub struct ParseTreeNode{
-	/// unique ID
-	id: usize,
-	/// DOM node
-	value: Box<dyn Node>,
-	/// parent element of this DOM node
-	parent_id: Option<usize>,
-	/// children of this DOM element
-	child_ids: Vec<usize>
-}
-
-impl ParseTreeNode {
-	/// used to move the value out of the struct
-	fn destruct(self) -> Box<dyn Node>{self.value}
-}
-
-impl PartialEq for ParseTreeNode {
-	fn eq(&self, other: &Self) -> bool {
-		self.id == other.id
-	}
-}
-impl Eq for ParseTreeNode{}
-impl std::hash::Hash for ParseTreeNode {
-	fn hash<H: Hasher>(&self, state: &mut H) {
-		self.id.hash(state)
-	}
-}
-impl PartialOrd for ParseTreeNode {
-	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-		Some(self.id.cmp(&other.id))
-	}
-}
-impl Ord for ParseTreeNode{
-	fn cmp(&self, other: &Self) -> Ordering {
-		self.partial_cmp(other).unwrap()
-	}
+/*!
+ this module contains utilities exclusive to parsing
+ */
+use std::cmp::Ordering;
+use std::collections::HashMap;
+use std::hash::Hasher;
+
+use crate::dom::*;
+use crate::errors::*;
+
+/** special tree data structure for parsing which uses ID's as keys in a HashMap to work around limitations in Rust's lifetime syntax. It is used like a stack, though internally it uses a HashMap based data arena */
+#[derive(Debug, Default)]
+pub struct ParseTree{
+	/** hold data in a non-tree format because Rust's lifetime syntax doesn't let you retrieve the lifetime from the parent of a node at runtime (lifetimes exist only at compile time, and even then there is no syntax for separately disentanlging reference-lifetimes from data-lifetimes) */
+	data: HashMap<usize, ParseTreeNode>,
+	/// current tip of the parsing tree, pointing to the "top" of the stack
+	pos: Option<usize>
+}
+
+impl ParseTree {
+	/// new parser tree
+	pub fn new() -> Self {
+		Self::default()
+	}
+	/// returns true if the simulated "stack" is empty, false otherwise. This can still return true
+	/// even if the internal HashMap is not empty
+	pub fn empty_stack(&self) -> bool {
+		match self.pos {
+			None => true,
+			Some(_) => false
+		}
+	}
+	/// push a new element to the stack
+	pub fn push(&mut self, new_element: Element) {
+		if self.pos.is_none() {
+			self.data.insert(0, ParseTreeNode{
+				id: 0,
+				value: Box::new(new_element),
+				parent_id: None,
+				child_ids: Vec::new(),
+			});
+			self.pos = Some(0);
+		} else {
+			let old_pos = self.pos.unwrap();
+			let new_pos = self.data.len();
+			self.data.get_mut(&old_pos).expect("logic error")
+				.child_ids.push(new_pos);
+			self.data.insert(new_pos, ParseTreeNode{
+				id: new_pos,
+				value: Box::new(new_element),
+				parent_id: Some(old_pos),
+				child_ids: Vec::new(),
+			});
+			self.pos = Some(new_pos);
+		}
+	}
+	/// pop the top element from the stack
+	pub fn pop(&mut self) -> Result<(), KissXmlError> {
+		if self.pos.is_none() {
+			return Err(ParsingError::new("closing tag without corresponding open tag").into());
+		}
+		let pos = self.pos.unwrap();
+		let new_pos = self.data
+			.get(&pos).expect("logic error").parent_id;
+		self.pos = new_pos;
+		Ok(())
+	}
+	/// append a node to the top element on the stack (without adding the new node to the stack)
+	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
+		if self.pos.is_none() {
+			return Err(ParsingError::new("no root element").into());
+		}
+		let pos = self.pos.unwrap();
+		let new_id = self.data.len();
+		self.data.get_mut(&pos).expect("logic error")
+			.child_ids.push(new_id);
+		self.data.insert(new_id, ParseTreeNode{
+			id: new_id,
+			value: Box::new(n),
+			parent_id: Some(pos),
+			child_ids: Vec::new(),
+		});
+		Ok(())
+	}
+	/// reference to the current element on top of the stack
+	pub fn top_element(&self) -> Option<&Element> {
+		match self.pos {
+			None => None,
+			Some(pos) => Some(
+				self.data.get(&pos).expect("logic error")
+					.value.as_element().expect("logic error")
+			)
+		}
+	}
+	/// converts the whole parse tree to a DOM, returning the root element
+	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
+		if self.data.is_empty() {
+			return Err(ParsingError::new("no root element").into());
+		}
+		// depth-first DOM construction
+		// the stack-based API ensures children always have higher ID number
+		// than their parents
+		// the challenge is that reverse index iteration will add children
+		// in opposite order
+		// solution is to flip the children when removing from the map
+		// (index 0 is root, so not included in loop)
+		for i in (1..self.data.len()).rev() {
+			let mut node = self.data.remove(&i).expect("logic error: missing index");
+			if node.value.is_element() {
+				// flip the children of element (and tidy its whitespace, now that all are known)
+				node.value.as_element_mut().unwrap().reverse_children()
+			}
+			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
+			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
+				.value.as_element_mut().expect("logic error: parent is not an Element")
+				.push_parsed_child(node.value);
+		}
+		let root_node = self.data.remove(&0).expect("logic error: no root element");
+		let mut root = root_node.destruct();
+		// let mut e = **(root.as_any()
+		// 	.downcast_ref::<Box<Element>>()
+		// 	.expect("logic error: root is not an element"));
+		let e = root.as_element_mut().expect("logic error: root is not an element");
+		// flip children because they were added in reverse order
+		e.reverse_children();
+		// done
+		// use mem::take to do a "DerefMove" operation
+		return Ok(std::mem::take(e));
+	}
+}
+
+/** nodes in the parser tree */
+#[derive(Debug)]
+pub struct ParseTreeNode{
+	/// unique ID
+	id: usize,
+	/// DOM node
+	value: Box<dyn Node>,
+	/// parent element of this DOM node
+	parent_id: Option<usize>,
+	/// children of this DOM element
+	child_ids: Vec<usize>
+}
+
+impl ParseTreeNode {
+	/// used to move the value out of the struct
+	fn destruct(self) -> Box<dyn Node>{self.value}
+}
+
+impl PartialEq for ParseTreeNode {
+	fn eq(&self, other: &Self) -> bool {
+		self.id == other.id
+	}
+}
+impl Eq for ParseTreeNode{}
+impl std::hash::Hash for ParseTreeNode {
+	fn hash<H: Hasher>(&self, state: &mut H) {
+		self.id.hash(state)
+	}
+}
+impl PartialOrd for ParseTreeNode {
+	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+		Some(self.id.cmp(&other.id))
+	}
+}
+impl Ord for ParseTreeNode{
+	fn cmp(&self, other: &Self) -> Ordering {
+		self.partial_cmp(other).unwrap()
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 48488d46192d054ae87510f9138e19bfea727944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 15/29] fix: default namespaces are inherited through elements
 that have a namespace prefix

---
 src/dom.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 0813f10..6e7566d 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -623,6 +623,8 @@ impl Element {
 				let prefix = split[1].to_string();
 				let ns = v.clone();
 				prefixes.insert(prefix, ns);
+			} else if key == "xmlns" {
+				prefixes.insert(String::new(), v.clone());
 			}
 		}
 		return prefixes;
@@ -643,7 +645,8 @@ impl Element {
 	pub fn default_namespace(&self) -> Option<String> {
 		match self.xmlns_prefix{
 			None => self.xmlns.clone(),
-			Some(_) => None
+			// a prefixed element is not in the default namespace itself, but passes it on
+			Some(_) => self.xmlns_context.get("").cloned()
 		}
 	}
 	/**
@@ -803,7 +806,8 @@ impl Element {
 	}
 	/** Gets any and all xmlns prefixes defined in this element (does not include prefix-less default namespace, nor prefixes inherited from a parent element) */
 	pub fn namespace_prefixes(&self) -> Option<HashMap<String, String>> {
-		let prefixes = Self::xmlns_context_from_attributes(&self.attributes);
+		let mut prefixes = Self::xmlns_context_from_attributes(&self.attributes);
+		prefixes.remove("");
 		if prefixes.is_empty() {
 			None
 		} else {
-- 
2.43.0


From 5d841e9b815a8a7b9e66fa40bbdccdfe60cb28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 16/29] fix: xmlns="" removes the default namespace instead of
 setting it to an empty one

---
 src/dom.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 6e7566d..278e728 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -465,6 +465,7 @@ impl Element {
 					// default xmlns
 					xmlns = match attrs.get("xmlns"){
 						None => None,
+						Some(ns) if ns.is_empty() => None, // xmlns="" means no default namespace
 						Some(ns) => Some(ns.to_string())
 					}
 				},
@@ -646,7 +647,7 @@ impl Element {
 		match self.xmlns_prefix{
 			None => self.xmlns.clone(),
 			// a prefixed element is not in the default namespace itself, but passes it on
-			Some(_) => self.xmlns_context.get("").cloned()
+			Some(_) => self.xmlns_context.get("").filter(|ns| !ns.is_empty()).cloned()
 		}
 	}
 	/**
@@ -822,7 +823,9 @@ impl Element {
 		match self.xmlns_prefix {
 			None => {
 				match self.default_namespace() {
-					None => self.xmlns = parent_default_namespace,
+					None => if !self.attributes.contains_key("xmlns") {
+						self.xmlns = parent_default_namespace
+					},
 					Some(_) => {/* do nothing */}
 				}
 			}
-- 
2.43.0


From 5366e885dfd7c0fb3f0dd3602244e72d3c1d166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 17/29] fix: adding an element applies the inherited namespaces
 to its descendants too

---
 src/dom.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 278e728..3d57c58 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1214,6 +1214,14 @@ impl Element {
 			df_xmlns,
 			Some(xmlns_context)
 		);
+		// the child may already have children of its own, which inherit from it
+		let child_df_xmlns = child.default_namespace();
+		let child_xmlns_context = child.xmlns_context.clone();
+		for grandchild in child.child_elements_mut() {
+			Self::apply_xmlns_context_to_child_element(
+				child_df_xmlns.clone(), child_xmlns_context.clone(), grandchild
+			);
+		}
 	}
 	/** Merges sequential text nodes and then discards whitespace-only text nodes (unless this element also contains actual text, in which case all whitespace is significant) */
 	fn cleanup_text_nodes(&mut self) {
-- 
2.43.0


From 4a00e6f6c2b3d4e9c67212dd0112074c0a464aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 18/29] fix: dropping a deeply nested document no longer
 overflows the stack

---
 src/dom.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 3d57c58..d2d4f50 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -510,10 +510,9 @@ impl Element {
 	pub fn new_from_name(name: &str) -> Result<Self, KissXmlError> {
 		// sanity check
 		Element::check_elem_name(name)?;
-		Ok(Self {
-			name: name.to_string(),
-			..Default::default()
-		})
+		let mut elem = Self::default();
+		elem.name = name.to_string();
+		Ok(elem)
 	}
 	/** Creates a new Element with the specified name and attributes.
 	# Example
@@ -1594,6 +1593,18 @@ impl Node for Element {
 	}
 }
 
+impl Drop for Element {
+	fn drop(&mut self) {
+		// not recursive, as that would overflow the stack on deeply nested elements
+		let mut nodes = std::mem::take(&mut self.child_nodes);
+		while let Some(mut node) = nodes.pop() {
+			if let Ok(e) = node.as_element_mut() {
+				nodes.append(&mut e.child_nodes);
+			}
+		}
+	}
+}
+
 impl Clone for Element {
 	fn clone(&self) -> Self {
 		let mut new_children: Vec<Box<dyn Node>> = Vec::with_capacity(self.child_nodes.len());
-- 
2.43.0


From d42f369383a108d88beba6ede3eb79d08b3f9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 19/29] fix: decode numeric character references as XML defines
 them (&#xHHH; hexadecimal, &#DDD; decimal)

---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f865311..8c5b4f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,14 @@ pub fn unescape(text: impl Into<String>) -> String {
 							string_insert(&mut buffer, (start, end), "\"");
 						}
 						if slice.starts_with("&#") {
-							match u32::from_str_radix(&slice[2..], 16) {
+							// &#xHHH; is hexadecimal and &#DDD; is decimal (and, for compatibility
+							// with older versions, &#HHH; is hexadecimal if it cannot be decimal)
+							let digits = &slice[2..];
+							let codepoint = match digits.strip_prefix("x") {
+								Some(hex) => u32::from_str_radix(hex, 16),
+								None => digits.parse::<u32>().or_else(|_| u32::from_str_radix(digits, 16))
+							};
+							match codepoint {
 								Ok(codepoint) => {
 									match char::from_u32(codepoint) {
 										Some(unicode) => {
-- 
2.43.0


From f101ecf6ad73f0190a1a9cfb0c6aced3735919a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 20/29] fix: UTF-8 files that start with a byte order mark can
 be parsed

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8c5b4f1..95e64a9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -386,7 +386,11 @@ pub fn parse_stream(mut reader: impl Read) -> Result<dom::Document, errors::Kiss
 /** Reads the XML content from the UTF-8 encoded text string and parses it as an XML document
  */
 pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors::KissXmlError> {
-	let buffer = xml_string.into();
+	let mut buffer: String = xml_string.into();
+	if buffer.starts_with('\u{FEFF}') {
+		// UTF-8 byte order mark, not part of the document
+		buffer.remove(0);
+	}
 	let mut decl: Option<dom::Declaration> = None;
 	let mut dtds: Vec<dom::DTD> = Vec::new();
 	let mut no_comment_warn = 0;
-- 
2.43.0


From ed16ff941333bbf952052beb8cc93c1cfcdceac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 21/29] fix: comments inside a DTD may contain quotes and angle
 brackets

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 95e64a9..1e3f0ca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -891,7 +891,12 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 	let mut depth: i32 = 0;
 	let mut in_quote = false;
 	let mut quote_char = '\0';
+	let mut comment_end: usize = 0;
 	for (i, c) in text[from..].char_indices() {
+		if from+i < comment_end {
+			// inside of a comment, quotes and tags have no meaning here
+			continue;
+		}
 		if in_quote {
 			if c == quote_char { // end of quoted field
 				in_quote = false;
@@ -903,6 +908,9 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 			} else if c == '\'' { // start of single-quoted field
 				quote_char = '\'';
 				in_quote = true;
+			} else if text[(from+i)..].starts_with("<!--") {
+				// start of comment, skip to its end
+				comment_end = from+i + 4 + text[(from+i+4)..].find("-->")? + 3;
 			} else if c == '<' {
 				depth += 1;
 			} else if c == '>' {
-- 
2.43.0


From 9659bb9331dc88d73e78b079343311eabd9c2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 22/29] fix: text made of non-breaking (or other non-XML)
 spaces is not whitespace and is no longer discarded

---
 src/dom.rs | 2 +-
 src/lib.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index d2d4f50..b19e7e8 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1706,7 +1706,7 @@ impl Text {
 	/// checks if this Text node contains only whitespace
 	fn is_whitespace(&self) -> bool {
 		let singleton = WSP_MATCHER_SINGLETON;
-		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
+		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^[ \t\r\n]*$"#).unwrap());
 		wsp_matcher.is_match(self.content.as_str())
 	}
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1e3f0ca..210b523 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -932,7 +932,7 @@ const IS_BLANK_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 fn real_text(text: &str) -> Option<String> {
 	// check for empty string
 	let singleton = IS_BLANK_MATCHER_SINGLETON;
-	let matcher = singleton.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
+	let matcher = singleton.get_or_init(|| Regex::new(r#"^[ \t\r\n]*$"#).unwrap());
 	if matcher.is_match(text) {
 		return None;
 	}
-- 
2.43.0


From dfd933760f9ec41b5dc264006af3e678204257a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 23/29] fix: error messages report the position of the error
 instead of the one after it

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 210b523..e04c232 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -945,12 +945,12 @@ fn line_and_column(text: &String, pos: usize) -> (usize, usize){
 	let mut line = 1;
 	let mut col = 1;
 	for (i, c) in text.char_indices(){
+		if i >= pos {break;}
 		col += 1;
 		if c == '\n' {
 			line += 1;
 			col = 1;
 		}
-		if i >= pos {break;}
 	}
 	(line, col)
 }
-- 
2.43.0


From b58d7e74ab83c2b538d0d0b8c545bdbaa98fdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 24/29] fix: a tag with an empty name is not accepted because
 of markup inside its attribute values

The pattern for element tags was not anchored, so < a b='<c>'/> passed the check.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e04c232..573dc81 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -787,7 +787,7 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*\s*=\s*(".*?"|'.*?'))*\s*/?>"#);
+		let pattern = format!(r#"(?ms)\A</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*\s*=\s*(".*?"|'.*?'))*\s*/?>\z"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
-- 
2.43.0


From 0bcaf847b967ba12b898a20a6b0eb00b95c71294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 25/29] fix: only XML whitespace separates names and attributes
 in a tag
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Other Unicode whitespace was treated like a space: names with U+1680, which XML allows,
could be written but not read, and tags like </a > were accepted.
---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 573dc81..6f3d7b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -774,7 +774,7 @@ fn strip_tag(tag: &str) -> String {
 	if tag.starts_with("/") {tag = &tag[1..];}
 	if tag.ends_with(">") {tag = &tag[..tag.len().saturating_sub(1)];}
 	if tag.ends_with("/") {tag = &tag[..tag.len().saturating_sub(1)];}
-	tag.trim().to_string()
+	tag.trim_matches(is_xml_whitespace).to_string()
 }
 
 
@@ -787,7 +787,8 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)\A</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*\s*=\s*(".*?"|'.*?'))*\s*/?>\z"#);
+		let wsp = r#"[ \t\r\n]"#;
+		let pattern = format!(r#"(?ms)\A</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?({wsp}+{name_start_char}{name_char}*{wsp}*={wsp}*(".*?"|'.*?'))*{wsp}*/?>\z"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
@@ -797,6 +798,11 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 }
 
 
+/// the characters that XML considers to be whitespace (some others can be part of a name)
+fn is_xml_whitespace(c: char) -> bool {
+	matches!(c, ' ' | '\t' | '\r' | '\n')
+}
+
 /// finds next <> enclosed thing (or None if EoF is reached)
 fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	let _i = from;
@@ -846,7 +852,7 @@ fn quote_aware_split(text: &str) -> Vec<String> {
 				// end of quoted text
 				in_quote = false;
 			}
-		} else if c.is_whitespace() {
+		} else if is_xml_whitespace(c) {
 			// break on whitespace
 			if builder.len() > 0 {
 				vec.push(builder);
-- 
2.43.0


From 69bf7f121aa4582c841ace08d5a1119efc049f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 26/29] fix: &#+65; and &#x+41; are not character references

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6f3d7b6..8c38e32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -318,6 +318,8 @@ pub fn unescape(text: impl Into<String>) -> String {
 								None => digits.parse::<u32>().or_else(|_| u32::from_str_radix(digits, 16))
 							};
 							match codepoint {
+								// a sign is no part of a character reference, although from_str_radix accepts it
+								Ok(_) if digits.contains('+') => { /* do nothing */ }
 								Ok(codepoint) => {
 									match char::from_u32(codepoint) {
 										Some(unicode) => {
-- 
2.43.0


From 781bbe438a1df6682dd69e65ab1d23e0370f2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 27/29] fix: restore the line endings of src/parsing.rs (CRLF,
 lost in an earlier fix)

---
 src/parsing.rs | 338 ++++++++++++++++++++++++-------------------------
 1 file changed, 169 insertions(+), 169 deletions(-)

diff --git a/src/parsing.rs b/src/parsing.rs
index 8e4c4ca..0e6d331 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,170 +1,170 @@
-/*!
- this module contains utilities exclusive to parsing
- */
-use std::cmp::Ordering;
-use std::collections::HashMap;
-use std::hash::Hasher;
-
-use crate::dom::*;
-use crate::errors::*;
-
-/** special tree data structure for parsing which uses ID's as keys in a HashMap to work around limitations in Rust's lifetime syntax. It is used like a stack, though internally it uses a HashMap based data arena */
-#[derive(Debug, Default)]
-pub struct ParseTree{
-	/** hold data in a non-tree format because Rust's lifetime syntax doesn't let you retrieve the lifetime from the parent of a node at runtime (lifetimes exist only at compile time, and even then there is no syntax for separately disentanlging reference-lifetimes from data-lifetimes) */
-	data: HashMap<usize, ParseTreeNode>,
-	/// current tip of the parsing tree, pointing to the "top" of the stack
-	pos: Option<usize>
-}
-
-impl ParseTree {
-	/// new parser tree
-	pub fn new() -> Self {
-		Self::default()
-	}
-	/// returns true if the simulated "stack" is empty, false otherwise. This can still return true
-	/// even if the internal HashMap is not empty
-	pub fn empty_stack(&self) -> bool {
-		match self.pos {
-			None => true,
-			Some(_) => false
-		}
-	}
-	/// push a new element to the stack
-	pub fn push(&mut self, new_element: Element) {
-		if self.pos.is_none() {
-			self.data.insert(0, ParseTreeNode{
-				id: 0,
-				value: Box::new(new_element),
-				parent_id: None,
-				child_ids: Vec::new(),
-			});
-			self.pos = Some(0);
-		} else {
-			let old_pos = self.pos.unwrap();
-			let new_pos = self.data.len();
-			self.data.get_mut(&old_pos).expect("logic error")
-				.child_ids.push(new_pos);
-			self.data.insert(new_pos, ParseTreeNode{
-				id: new_pos,
-				value: Box::new(new_element),
-				parent_id: Some(old_pos),
-				child_ids: Vec::new(),
-			});
-			self.pos = Some(new_pos);
-		}
-	}
-	/// pop the top element from the stack
-	pub fn pop(&mut self) -> Result<(), KissXmlError> {
-		if self.pos.is_none() {
-			return Err(ParsingError::new("closing tag without corresponding open tag").into());
-		}
-		let pos = self.pos.unwrap();
-		let new_pos = self.data
-			.get(&pos).expect("logic error").parent_id;
-		self.pos = new_pos;
-		Ok(())
-	}
-	/// append a node to the top element on the stack (without adding the new node to the stack)
-	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
-		if self.pos.is_none() {
-			return Err(ParsingError::new("no root element").into());
-		}
-		let pos = self.pos.unwrap();
-		let new_id = self.data.len();
-		self.data.get_mut(&pos).expect("logic error")
-			.child_ids.push(new_id);
-		self.data.insert(new_id, ParseTreeNode{
-			id: new_id,
-			value: Box::new(n),
-			parent_id: Some(pos),
-			child_ids: Vec::new(),
-		});
-		Ok(())
-	}
-	/// reference to the current element on top of the stack
-	pub fn top_element(&self) -> Option<&Element> {
-		match self.pos {
-			None => None,
-			Some(pos) => Some(
-				self.data.get(&pos).expect("logic error")
-					.value.as_element().expect("logic error")
-			)
-		}
-	}
-	/// converts the whole parse tree to a DOM, returning the root element
-	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
-		if self.data.is_empty() {
-			return Err(ParsingError::new("no root element").into());
-		}
-		// depth-first DOM construction
-		// the stack-based API ensures children always have higher ID number
-		// than their parents
-		// the challenge is that reverse index iteration will add children
-		// in opposite order
-		// solution is to flip the children when removing from the map
-		// (index 0 is root, so not included in loop)
-		for i in (1..self.data.len()).rev() {
-			let mut node = self.data.remove(&i).expect("logic error: missing index");
-			if node.value.is_element() {
-				// flip the children of element (and tidy its whitespace, now that all are known)
-				node.value.as_element_mut().unwrap().reverse_children()
-			}
-			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
-			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
-				.value.as_element_mut().expect("logic error: parent is not an Element")
-				.push_parsed_child(node.value);
-		}
-		let root_node = self.data.remove(&0).expect("logic error: no root element");
-		let mut root = root_node.destruct();
-		// let mut e = **(root.as_any()
-		// 	.downcast_ref::<Box<Element>>()
-		// 	.expect("logic error: root is not an element"));
-		let e = root.as_element_mut().expect("logic error: root is not an element");
-		// flip children because they were added in reverse order
-		e.reverse_children();
-		// done
-		// use mem::take to do a "DerefMove" operation
-		return Ok(std::mem::take(e));
-	}
-}
-
-/** nodes in the parser tree */
-#[derive(Debug)]
-pub struct ParseTreeNode{
-	/// unique ID
-	id: usize,
-	/// DOM node
-	value: Box<dyn Node>,
-	/// parent element of this DOM node
-	parent_id: Option<usize>,
-	/// children of this DOM element
-	child_ids: Vec<usize>
-}
-
-impl ParseTreeNode {
-	/// used to move the value out of the struct
-	fn destruct(self) -> Box<dyn Node>{self.value}
-}
-
-impl PartialEq for ParseTreeNode {
-	fn eq(&self, other: &Self) -> bool {
-		self.id == other.id
-	}
-}
-impl Eq for ParseTreeNode{}
-impl std::hash::Hash for ParseTreeNode {
-	fn hash<H: Hasher>(&self, state: &mut H) {
-		self.id.hash(state)
-	}
-}
-impl PartialOrd for ParseTreeNode {
-	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-		Some(self.id.cmp(&other.id))
-	}
-}
-impl Ord for ParseTreeNode{
-	fn cmp(&self, other: &Self) -> Ordering {
-		self.partial_cmp(other).unwrap()
-	}
+/*!
+ this module contains utilities exclusive to parsing
+ */
+use std::cmp::Ordering;
+use std::collections::HashMap;
+use std::hash::Hasher;
+
+use crate::dom::*;
+use crate::errors::*;
+
+/** special tree data structure for parsing which uses ID's as keys in a HashMap to work around limitations in Rust's lifetime syntax. It is used like a stack, though internally it uses a HashMap based data arena */
+#[derive(Debug, Default)]
+pub struct ParseTree{
+	/** hold data in a non-tree format because Rust's lifetime syntax doesn't let you retrieve the lifetime from the parent of a node at runtime (lifetimes exist only at compile time, and even then there is no syntax for separately disentanlging reference-lifetimes from data-lifetimes) */
+	data: HashMap<usize, ParseTreeNode>,
+	/// current tip of the parsing tree, pointing to the "top" of the stack
+	pos: Option<usize>
+}
+
+impl ParseTree {
+	/// new parser tree
+	pub fn new() -> Self {
+		Self::default()
+	}
+	/// returns true if the simulated "stack" is empty, false otherwise. This can still return true
+	/// even if the internal HashMap is not empty
+	pub fn empty_stack(&self) -> bool {
+		match self.pos {
+			None => true,
+			Some(_) => false
+		}
+	}
+	/// push a new element to the stack
+	pub fn push(&mut self, new_element: Element) {
+		if self.pos.is_none() {
+			self.data.insert(0, ParseTreeNode{
+				id: 0,
+				value: Box::new(new_element),
+				parent_id: None,
+				child_ids: Vec::new(),
+			});
+			self.pos = Some(0);
+		} else {
+			let old_pos = self.pos.unwrap();
+			let new_pos = self.data.len();
+			self.data.get_mut(&old_pos).expect("logic error")
+				.child_ids.push(new_pos);
+			self.data.insert(new_pos, ParseTreeNode{
+				id: new_pos,
+				value: Box::new(new_element),
+				parent_id: Some(old_pos),
+				child_ids: Vec::new(),
+			});
+			self.pos = Some(new_pos);
+		}
+	}
+	/// pop the top element from the stack
+	pub fn pop(&mut self) -> Result<(), KissXmlError> {
+		if self.pos.is_none() {
+			return Err(ParsingError::new("closing tag without corresponding open tag").into());
+		}
+		let pos = self.pos.unwrap();
+		let new_pos = self.data
+			.get(&pos).expect("logic error").parent_id;
+		self.pos = new_pos;
+		Ok(())
+	}
+	/// append a node to the top element on the stack (without adding the new node to the stack)
+	pub fn append(&mut self, n: impl Node + 'static) -> Result<(), KissXmlError> {
+		if self.pos.is_none() {
+			return Err(ParsingError::new("no root element").into());
+		}
+		let pos = self.pos.unwrap();
+		let new_id = self.data.len();
+		self.data.get_mut(&pos).expect("logic error")
+			.child_ids.push(new_id);
+		self.data.insert(new_id, ParseTreeNode{
+			id: new_id,
+			value: Box::new(n),
+			parent_id: Some(pos),
+			child_ids: Vec::new(),
+		});
+		Ok(())
+	}
+	/// reference to the current element on top of the stack
+	pub fn top_element(&self) -> Option<&Element> {
+		match self.pos {
+			None => None,
+			Some(pos) => Some(
+				self.data.get(&pos).expect("logic error")
+					.value.as_element().expect("logic error")
+			)
+		}
+	}
+	/// converts the whole parse tree to a DOM, returning the root element
+	pub fn to_dom(mut self) -> Result<Element, KissXmlError> {
+		if self.data.is_empty() {
+			return Err(ParsingError::new("no root element").into());
+		}
+		// depth-first DOM construction
+		// the stack-based API ensures children always have higher ID number
+		// than their parents
+		// the challenge is that reverse index iteration will add children
+		// in opposite order
+		// solution is to flip the children when removing from the map
+		// (index 0 is root, so not included in loop)
+		for i in (1..self.data.len()).rev() {
+			let mut node = self.data.remove(&i).expect("logic error: missing index");
+			if node.value.is_element() {
+				// flip the children of element (and tidy its whitespace, now that all are known)
+				node.value.as_element_mut().unwrap().reverse_children()
+			}
+			let parent_index = node.parent_id.expect("logic error: non-root node with no parent");
+			self.data.get_mut(&parent_index).expect("logic error: parent is missing")
+				.value.as_element_mut().expect("logic error: parent is not an Element")
+				.push_parsed_child(node.value);
+		}
+		let root_node = self.data.remove(&0).expect("logic error: no root element");
+		let mut root = root_node.destruct();
+		// let mut e = **(root.as_any()
+		// 	.downcast_ref::<Box<Element>>()
+		// 	.expect("logic error: root is not an element"));
+		let e = root.as_element_mut().expect("logic error: root is not an element");
+		// flip children because they were added in reverse order
+		e.reverse_children();
+		// done
+		// use mem::take to do a "DerefMove" operation
+		return Ok(std::mem::take(e));
+	}
+}
+
+/** nodes in the parser tree */
+#[derive(Debug)]
+pub struct ParseTreeNode{
+	/// unique ID
+	id: usize,
+	/// DOM node
+	value: Box<dyn Node>,
+	/// parent element of this DOM node
+	parent_id: Option<usize>,
+	/// children of this DOM element
+	child_ids: Vec<usize>
+}
+
+impl ParseTreeNode {
+	/// used to move the value out of the struct
+	fn destruct(self) -> Box<dyn Node>{self.value}
+}
+
+impl PartialEq for ParseTreeNode {
+	fn eq(&self, other: &Self) -> bool {
+		self.id == other.id
+	}
+}
+impl Eq for ParseTreeNode{}
+impl std::hash::Hash for ParseTreeNode {
+	fn hash<H: Hasher>(&self, state: &mut H) {
+		self.id.hash(state)
+	}
+}
+impl PartialOrd for ParseTreeNode {
+	fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+		Some(self.id.cmp(&other.id))
+	}
+}
+impl Ord for ParseTreeNode{
+	fn cmp(&self, other: &Self) -> Ordering {
+		self.partial_cmp(other).unwrap()
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 0c156936f6c7d3dd84d41dc2acd91676aff11821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:13 +0000
Subject: [PATCH 28/29] fix: reject closing tags that end in '/>' (eg <a></a/>)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8c38e32..02f8fb6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -597,6 +597,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			})?;
 			// is it a closing tag? If so, pop the parent stack
 			if slice.starts_with("</") {
+				if slice.ends_with("/>") {
+					let (line, col) = line_and_column(&buffer, tag_span.0);
+					return Err(errors::ParsingError::new(format!(
+						"closing tag {slice} must not end in '/>' (syntax error on line {line}, column {col})"
+					)).into());
+				}
 				let active_element = parse_stack.top_element()
 					.ok_or_else(||{
 						let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
-- 
2.43.0


From 2a410d62e308b741dec670eea0802d4a594b0899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:13 +0000
Subject: [PATCH 29/29] fix: reject tags with duplicate attributes instead of
 dropping all but the last

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 02f8fb6..b561b3e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -706,6 +706,12 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 				"invalid XML syntax on line {line}, column {col}: attribute value must be quoted with single or double quotes"
 			)).into());
 		}
+		if attrs.contains_key(k) {
+			let (line, col) = line_and_column(&buffer, tag_span.0);
+			return Err(errors::ParsingError::new(format!(
+				"invalid XML syntax on line {line}, column {col}: duplicate attribute '{k}'"
+			)).into());
+		}
 		let quote = &v[..1];
 		v = &v[1..(v.len()-1)]; // remove quotes
 		if v.contains(quote) {
-- 
2.43.0


From 9d427a8b4a0c7d2bad7265b785163495935376d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:46 +0000
Subject: [PATCH 01/17] fix: treat CRLF line endings like LF when rendering

---
 gfm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 829f7fa..f6765ef 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -29,7 +29,8 @@ impl Parser {
 	/// ```
 	pub fn render(source: &str) -> String {
 		debug!("Rendering source of length: {}", source.len());
-		Self::parse(&Self::lex(source, &[]))
+		let source = source.replace("\r\n", "\n");
+		Self::parse(&Self::lex(&source, &[]))
 	}
 
 	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
-- 
2.43.0


From 601b3ae4fd2d54e89a660004bfd361d15dfc54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:46 +0000
Subject: [PATCH 02/17] fix: recognise block markers at the beginning of a line
 only

---
 gfm/src/iter.rs  | 13 ++++++++++++-
 gfm/src/lexer.rs | 23 ++++++++++++++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 8a1f82c..4653741 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -28,10 +28,21 @@ impl<'a> MarkdownIter<'a> {
 		}
 	}
 
-	fn update_index_to(&mut self, i: usize) {
+	/// Moves the cursor to `i`, a position returned by [Self::get_index].
+	pub fn update_index_to(&mut self, i: usize) {
 		self.index = i;
 	}
 
+	/// Whether only indentation precedes the cursor on its line.
+	pub fn at_line_start(&self) -> bool {
+		self.the_str[..self.index]
+			.rsplit('\n')
+			.next()
+			.unwrap_or("")
+			.chars()
+			.all(|c| c == ' ' || c == '\t')
+	}
+
 	pub fn peek(&self) -> Option<&'a str> {
 		for i in 1..=4 {
 			if self.the_str.is_char_boundary(self.index + i) {
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ed81087..ac49168 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -21,6 +21,12 @@ use super::{
 	},
 };
 
+/// Characters that start a block construct at the beginning of a line.
+/// Lexing with all of them ignored yields inline content only. `0` stands for
+/// any digit.
+pub(crate) const BLOCK_MARKERS: [char; 11] =
+	['#', ' ', '\t', '0', '*', '_', '-', '+', '>', '`', '|'];
+
 pub struct Lexer<'a> {
 	iter: MarkdownIter<'a>,
 }
@@ -54,7 +60,7 @@ impl<'a> Lexer<'a> {
 		while let Some(ch) = self.iter.peek() {
 			debug!("Processing character: {:?}", self.iter.peek());
 			match ch {
-				"#" if !ignore.contains(&'#') => {
+				"#" if self.starts_block('#', ignore) => {
 					return match self.lex_heading() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -81,7 +87,9 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0" => {
+				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0"
+					if self.starts_block('0', ignore) =>
+				{
 					return match self.lex_numbers() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -103,7 +111,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"-" | "+" => {
+				"-" | "+" if self.starts_block('-', ignore) => {
 					return match self.lex_plus_minus() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -112,7 +120,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				">" => {
+				">" if self.starts_block('>', ignore) => {
 					return match self.lex_blockquotes() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -166,7 +174,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"|" => {
+				"|" if self.starts_block('|', ignore) => {
 					return match self.lex_pipes() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -200,6 +208,11 @@ impl<'a> Lexer<'a> {
 		None
 	}
 
+	/// Block constructs are recognised at the beginning of a line only.
+	fn starts_block(&self, marker: char, ignore: &[char]) -> bool {
+		!ignore.contains(&marker) && self.iter.at_line_start()
+	}
+
 	fn lex_heading(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let hashes = self
 			.iter
-- 
2.43.0


From bd6532832ad8d08facb5e1dc6e5a0c92c4a8af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:04 +0000
Subject: [PATCH 03/17] fix: keep heading text that looks like a block and read
 {#id} labels without panicking

---
 gfm/src/lexer.rs | 43 +++++++++++++++++--------------------------
 gfm/src/lib.rs   | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ac49168..f70b815 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -231,40 +231,31 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
-		if line.contains("{#") && line.contains('}') {
-			let (heading, _title) = line.split_once("{").unwrap_or(("", ""));
-			line = line
-				.strip_prefix(heading)
-				.unwrap()
-				.strip_prefix("{#")
-				.unwrap()
-				.strip_suffix("}")
-				.unwrap();
+		let mut label = None;
+		if let Some((heading, id)) = line
+			.trim_end()
+			.strip_suffix("}")
+			.and_then(|l| l.rsplit_once("{#"))
+		{
+			line = heading;
+			label = Some(id.to_string());
 		}
 		let line_without_optional_trailing_hash_sequence =
-			match line.trim_end().rsplit_once(' ') {
+			match line.trim_end().rsplit_once([' ', '\t']) {
 				Some((left, right)) => match right.chars().all(|c| c == '#') {
 					true => left,
 					false => line,
 				},
 				None => line,
 			};
-		if line.chars().all(|c| c == '#') {
-			return Ok(Token::Header(hashes.len(), "".to_string(), None));
-		}
-		let parsed_line = Parser::render_ignore(
-			line_without_optional_trailing_hash_sequence
-				.trim_end_matches([' ', '\t']),
-			&['#'],
-		)
-		.strip_prefix("<p>")
-		.unwrap_or("")
-		.strip_suffix("</p>\n")
-		.unwrap_or("")
-		.trim()
-		.to_string();
-
-		Ok(Token::Header(hashes.len(), parsed_line, None))
+		if line.trim().chars().all(|c| c == '#') {
+			return Ok(Token::Header(hashes.len(), "".to_string(), label));
+		}
+		let parsed_line = Parser::render_inline(
+			line_without_optional_trailing_hash_sequence.trim_matches([' ', '\t']),
+		);
+
+		Ok(Token::Header(hashes.len(), parsed_line, label))
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index f6765ef..f43cbed 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -2,7 +2,10 @@ mod iter;
 mod lexer;
 mod token;
 
-use lexer::Lexer;
+use lexer::{
+	Lexer,
+	BLOCK_MARKERS,
+};
 use log::debug;
 use token::Token;
 
@@ -33,8 +36,19 @@ impl Parser {
 		Self::parse(&Self::lex(&source, &[]))
 	}
 
-	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
-		Self::parse(&Self::lex(source, ignore))
+	/// Renders text in which no block construct is recognised, without the
+	/// enclosing paragraph.
+	pub(crate) fn render_inline(source: &str) -> String {
+		Self::parse_inline(&Self::lex(source, &BLOCK_MARKERS))
+	}
+
+	fn parse_inline(tokens: &[Token<'_>]) -> String {
+		let html = Self::parse(tokens);
+		let html = html.trim_end_matches('\n');
+		html.strip_prefix("<p>")
+			.and_then(|h| h.strip_suffix("</p>"))
+			.unwrap_or(html)
+			.to_string()
 	}
 
 	pub(crate) fn lex<'a>(source: &'a str, ignore: &[char]) -> Vec<Token<'a>> {
-- 
2.43.0


From 5ae08373786956c1f2c28b60e94979586ab9d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 04/17] fix: escape link targets and keep them as written

A quote or angle bracket in a URL closed the href attribute, % and # were
double encoded, "http:" was put in front of relative targets, and control
characters were let through.
---
 gfm/src/token.rs | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 731992e..5a99f85 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -100,9 +100,14 @@ pub struct ValidURL<'a> {
 
 impl ValidURL<'_> {
 	pub(crate) fn fmt_unsafe(&self) -> String {
-		let amp_replace_content = self.content.replace('&', "&amp;");
+		let amp_replace_content = self
+			.content
+			.replace('&', "&amp;")
+			.replace('<', "&lt;")
+			.replace('>', "&gt;")
+			.replace('"', "&quot;");
 		match &self.scheme {
-			None => format!("http:{}", amp_replace_content),
+			None => amp_replace_content,
 			Some(Scheme::Email(_s)) => amp_replace_content.to_string(),
 			Some(s) => format!("{}:{}", s, amp_replace_content),
 		}
@@ -115,7 +120,7 @@ impl fmt::Display for ValidURL<'_> {
 			None => {
 				write!(
 					f,
-					"http:{}",
+					"{}",
 					percent_encode(self.content).replace('&', "&amp;")
 				)
 			}
@@ -152,8 +157,9 @@ impl fmt::Display for Scheme<'_> {
 
 pub(crate) fn percent_encode(source: &str) -> String {
 	source
-		.replace('%', "%25")
-		.replace('#', "%23")
+		.replace('"', "%22")
+		.replace('<', "%3C")
+		.replace('>', "%3E")
 		.replace('[', "%5B")
 		.replace(']', "%5D")
 		.replace('!', "%21")
@@ -194,7 +200,9 @@ impl fmt::Display for Alignment {
 pub(crate) fn validate_link(
 	source: &str,
 ) -> Result<ValidURL, SanitizationError> {
-	if !source.is_ascii() || source.contains(char::is_whitespace) {
+	if !source.is_ascii() || source.contains(|c: char| {
+		c.is_whitespace() || c.is_control()
+	}) {
 		// https://www.rfc-editor.org/rfc/rfc3986#section-2
 		return Err(SanitizationError { content: source });
 	}
@@ -222,7 +230,6 @@ pub(crate) fn validate_link(
 		{
 			match parts[0] {
 				"http" => Some(Scheme::Http(parts[0])),
-				"mailto" => Some(Scheme::Email(parts[0])),
 				"irc" => Some(Scheme::Irc(parts[0])),
 				_ => Some(Scheme::Other(parts[0])),
 			}
@@ -232,27 +239,18 @@ pub(crate) fn validate_link(
 	};
 
 	//Check for mail links
-	if source.contains('@') &&
-		source.matches('@').count() == 1 &&
-		!source.contains('\\')
+	if source.matches('@').count() == 1 &&
+		source_scheme.is_none() &&
+		!source.contains(['/', '#', '?'])
 	{
-		if source_scheme.is_some() {
-			return Ok(ValidURL {
-				scheme:  Some(source_scheme.unwrap_or(Scheme::Email("mailto"))),
-				content: &source.split(":").last().unwrap(),
-			});
+		if source.contains('\\') {
+			return Err(SanitizationError { content: source });
 		}
 		return Ok(ValidURL {
-			scheme:  Some(source_scheme.unwrap_or(Scheme::Email("mailto"))),
-			content: &source,
+			scheme:  Some(Scheme::Email("mailto")),
+			content: source,
 		});
 	}
-	if source.contains('@') &&
-		source.matches('@').count() == 1 &&
-		source.contains('\\')
-	{
-		return Err(SanitizationError { content: source });
-	}
 
 	match source_scheme {
 		Some(Scheme::Http(s)) => Ok(ValidURL {
-- 
2.43.0


From 2d87d36cdfc268290b2d3d54dfc0a0b187b2382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:31 +0000
Subject: [PATCH 05/17] fix: write a link title as a quoted, escaped attribute

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index f43cbed..a92edbf 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -305,10 +305,10 @@ impl Parser {
 				Token::Link(l, t, ht) => match (t, ht) {
 					(Some(t), Some(ht)) => html.push_str(
 						format!(
-							"<a href=>\"{link}\" title=\"{hover}\">{text}</a>",
+							"<a href=\"{link}\" title=\"{hover}\">{text}</a>",
 							link = l,
 							text = Self::sanitize_display_text(t),
-							hover = ht
+							hover = Self::sanitize_display_text(ht)
 						)
 						.as_str(),
 					),
-- 
2.43.0


From f9c03695bc8ef01a37e4754648e736314f0bb6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:46 +0000
Subject: [PATCH 06/17] fix: give each footnote its own id

---
 gfm/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index a92edbf..f9b8f10 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -563,7 +563,13 @@ impl Parser {
 			html.push_str("<div class=\"footnotes\" role=\"doc-endnotes\">\n");
 			html.push_str("\t<ol>\n");
 			for reference in references.iter() {
-				html.push_str("\t\t<li id=\"fn:1\" role=\"doc-endnote\">");
+				html.push_str(
+					format!(
+						"\t\t<li id=\"fn:{}\" role=\"doc-endnote\">",
+						Self::sanitize_display_text(reference.0)
+					)
+					.as_str(),
+				);
 				html.push_str(
 					format!(
 						"\t\t\t<p>{ref_text}<a href=\"#fnref:{ref_count}\" \
-- 
2.43.0


From 1e8aa77477228c9628a8bdfac268ccbc6688f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:46 +0000
Subject: [PATCH 07/17] fix: do not escape block quote text twice

---
 gfm/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index f9b8f10..860c518 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -396,10 +396,8 @@ impl Parser {
 					}
 					if !t.is_empty() {
 						html.push_str(
-							&Self::render(&Self::sanitize_display_text(
-								t.trim_start_matches(" "),
-							))
-							.replace("\t", "  "),
+							&Self::render(t.trim_start_matches(" "))
+								.replace("\t", "  "),
 						);
 					}
 				}
-- 
2.43.0


From 3bfd93903dc280c011573dc948aa79840165f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:46 +0000
Subject: [PATCH 08/17] fix: keep text when an inline or block construct is
 left unfinished

The lexer dropped, merged or looped on text whenever a construct turned out
not to be one (unmatched emphasis, backticks, brackets, tables, details,
footnotes), and the renderer lost whitespace between words and left
paragraphs, lists, quotes and code blocks open or closed twice when another
block followed. Failed constructs now only emit their opening delimiter as
text, and every block is closed by the first token that cannot belong to it.
---
 gfm/src/iter.rs  |  14 +
 gfm/src/lexer.rs | 750 +++++++++++++++++++----------------------------
 gfm/src/lib.rs   | 284 +++++++++---------
 gfm/src/token.rs |  23 +-
 4 files changed, 468 insertions(+), 603 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 4653741..f68f7fd 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -43,6 +43,20 @@ impl<'a> MarkdownIter<'a> {
 			.all(|c| c == ' ' || c == '\t')
 	}
 
+	/// Whether a letter or digit comes right before position `i`.
+	pub fn follows_word(&self, i: usize) -> bool {
+		self.the_str[..i]
+			.chars()
+			.next_back()
+			.is_some_and(char::is_alphanumeric)
+	}
+
+	/// Whether a letter or digit comes next.
+	pub fn precedes_word(&self) -> bool {
+		self.peek()
+			.is_some_and(|c| c.chars().all(char::is_alphanumeric))
+	}
+
 	pub fn peek(&self) -> Option<&'a str> {
 		for i in 1..=4 {
 			if self.the_str.is_char_boundary(self.index + i) {
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index f70b815..56c793b 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -79,7 +79,8 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				" " | "\t" => {
-					return match self.lex_tabs_spaces(tokens) {
+					let block = self.starts_block(' ', ignore);
+					return match self.lex_tabs_spaces(tokens, block) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing whitespaces: {}", e);
@@ -99,7 +100,8 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"*" | "_" => {
-					return match self.lex_asterisk_underscore() {
+					let block = self.starts_block('*', ignore);
+					return match self.lex_asterisk_underscore(block) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!(
@@ -139,7 +141,8 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"`" => {
-					return match self.lex_backticks() {
+					let block = self.starts_block('`', ignore);
+					return match self.lex_backticks(block) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing backticks: {}", e);
@@ -148,7 +151,8 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"[" => {
-					return match self.lex_links() {
+					let block = self.starts_block('#', ignore);
+					return match self.lex_links(block) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing link: {}", e);
@@ -166,7 +170,8 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"<" => {
-					return match self.lex_side_carrot() {
+					let block = self.starts_block('#', ignore);
+					return match self.lex_side_carrot(block) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing side carrot: {}", e);
@@ -213,6 +218,15 @@ impl<'a> Lexer<'a> {
 		!ignore.contains(&marker) && self.iter.at_line_start()
 	}
 
+	/// Gives up on a construct: only its `len` opening bytes become text, and
+	/// lexing resumes right behind them.
+	fn literal(&mut self, start: usize, len: usize) -> ParseError<'a> {
+		self.iter.update_index_to(start + len);
+		ParseError {
+			content: self.iter.get_substring_from(start).unwrap_or(""),
+		}
+	}
+
 	fn lex_heading(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let hashes = self
 			.iter
@@ -259,129 +273,128 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		match self.iter.consume_while_case_holds(&|c| c == "\n") {
-			Some(s) if s.len() >= 2 => Ok(Token::Newline),
-			Some(s) if s.len() < 2 => Err(ParseError { content: s }),
-			_ => Err(ParseError { content: "" }),
+		let start_index = self.iter.get_index();
+		let mut end_index = start_index;
+		let mut newlines = 0;
+		while self.iter.next_if_eq("\n").is_some() {
+			newlines += 1;
+			end_index = self.iter.get_index();
+			// a line of nothing but whitespace is blank as well
+			self.iter
+				.consume_while_case_holds(&|c| c == " " || c == "\t");
+		}
+		self.iter.update_index_to(end_index);
+		match newlines {
+			0 | 1 => Err(ParseError {
+				content: self.iter.get_substring_from(start_index).unwrap_or(""),
+			}),
+			_ => Ok(Token::Newline),
 		}
 	}
 
 	fn lex_tabs_spaces(
 		&mut self,
 		tokens: &Vec<Token>,
+		block: bool,
 	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
+		let at_line_start = self.iter.at_line_start();
 		let whitespace = self
 			.iter
-			.consume_while_case_holds(&|c| c == "\t" || c == " ");
+			.consume_while_case_holds(&|c| c == "\t" || c == " ")
+			.unwrap_or("");
 
-		match whitespace {
-			None => return Err(ParseError { content: "" }),
-			Some(s) if (1..=3).contains(&s.len()) && !s.contains("\t") => {
-				return Err(ParseError { content: s })
+		if matches!(self.iter.peek(), None | Some("\n")) {
+			if !at_line_start && whitespace.ends_with("  ") {
+				return Ok(Token::LineBreak);
 			}
-			Some(s)
-				if s.len() >= 2 &&
-					!s.contains("\t") &&
-					self.iter.peek() == Some("\n") =>
-			{
-				return Ok(Token::LineBreak)
-			}
-			Some(_s) => {}
+			return Err(ParseError { content: whitespace });
 		}
 
-		let whitespace = whitespace.unwrap_or("");
+		// Indented code cannot interrupt a paragraph
+		let in_paragraph = tokens
+			.iter()
+			.rev()
+			.find(|t| !t.is_blank())
+			.is_some_and(Token::is_inline);
+		let indent = match whitespace.find('\t') {
+			Some(i) if i < 4 => i + 1,
+			_ => 4,
+		};
+		if !block || in_paragraph || whitespace.get(..indent).is_none() {
+			return Err(ParseError { content: whitespace });
+		}
+		self.iter.update_index_to(start_index + indent);
 		let line = self.iter.consume_until_tail_is("\n").unwrap_or("");
-
-		match whitespace {
-			"    "
-				if (matches!(tokens.last(), Some(Token::Plaintext(_))) &&
-					line.contains('#')) =>
-			{
-				return Err(ParseError { content: line })
-			}
-			"    "
-				if (matches!(tokens.last(), Some(Token::Newline)) &&
-					line.contains('#')) =>
-			{
-				return Err(ParseError { content: line })
-			}
-			"\t" if matches!(tokens.last(), Some(Token::Code(_))) => {
-				return Ok(Token::Code(line.to_string()))
-			}
-			"\t" | "    " | "  \t" => return Ok(Token::Code(line.to_string())),
-			"\t\t" => return Ok(Token::Code("\t".to_owned() + line)),
-			_ => {}
-		}
-
-		if self.iter.peek() == Some("\t") || self.iter.peek() == Some(" ") {
-			match self.lex_tabs_spaces(tokens) {
-				Ok(Token::CodeBlock(_content, _lang)) => {
-					return Ok(Token::CodeBlock(
-						self.iter
-							.get_substring_from(start_index)
-							.unwrap_or("")
-							.to_string(),
-						"".to_string(),
-					))
-				}
-				Err(e) => return Err(e),
-				Ok(_) => return Err(ParseError { content: "" }),
-			}
-		}
-		Err(ParseError {
-			content: self.iter.get_substring_from(start_index).unwrap_or(""),
-		})
+		Ok(Token::IndentedCode(line.to_string()))
 	}
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
-		let c = self.iter.next().unwrap();
-		match self.iter.next_if_eq(".") {
-			Some(".") => {
-				if self.iter.next_if_eq(" ") != Some(" ") {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
-				}
-
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or("");
-				Ok(Token::OrderedListEntry(s.to_string()))
-			}
-			_ => Err(ParseError { content: c }),
+		let digits = self
+			.iter
+			.consume_while_case_holds(&|c| {
+				c.chars().all(|c| c.is_ascii_digit())
+			})
+			.unwrap_or("");
+		if self.iter.next_if_eq(".").is_none() ||
+			self.iter.next_if_eq(" ").is_none()
+		{
+			return Err(self.literal(start_index, digits.len()));
 		}
+
+		let s = self
+			.iter
+			.consume_while_case_holds(&|c| c != "\n")
+			.unwrap_or("");
+		Ok(Token::OrderedListEntry(s.to_string()))
 	}
 
 	fn lex_escaped_character(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+		let start_index = self.iter.get_index();
 		self.iter.next();
-		if self.iter.peek() == Some("#") {
-			let hashes = self
-				.iter
-				.consume_while_case_holds(&|c| c == "#")
-				.unwrap_or("");
-			return Ok(Token::Plaintext(hashes.to_string()));
-		} else if self.iter.peek().is_some() {
-			return Ok(Token::Plaintext(
-				self.iter.next().unwrap_or_default().to_string(),
-			));
+		match self.iter.peek() {
+			Some(c) if c.chars().all(|c| c.is_ascii_punctuation()) => {
+				self.iter.next();
+				Ok(Token::Plaintext(c.to_string()))
+			}
+			_ => Err(self.literal(start_index, 1)),
 		}
+	}
 
-		Err(ParseError { content: "EOF" })
+	/// A line of three or more `*`, `-` or `_`, blanks aside.
+	fn lex_thematic_break(&mut self) -> Option<Token<'a>> {
+		let start_index = self.iter.get_index();
+		let line = self
+			.iter
+			.consume_while_case_holds(&|c| c != "\n")
+			.unwrap_or("")
+			.replace([' ', '\t'], "");
+		if line.len() >= 3 &&
+			["*", "-", "_"].iter().any(|c| line.replace(c, "").is_empty())
+		{
+			return Some(Token::HorizontalRule);
+		}
+		self.iter.update_index_to(start_index);
+		None
 	}
 
-	fn lex_asterisk_underscore(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	fn lex_asterisk_underscore(
+		&mut self,
+		block: bool,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
+		if block {
+			if let Some(rule) = self.lex_thematic_break() {
+				return Ok(rule);
+			}
+		}
+		let marker = self.iter.peek().unwrap_or("");
 		let asterunds = self
 			.iter
-			.consume_while_case_holds(&|c| c == "*" || c == "_" || c == "\t")
+			.consume_while_case_holds(&|c| c == marker)
 			.unwrap_or("");
-		if asterunds.len() == 1 && self.iter.next_if_eq(" ").is_some() {
+		if block && asterunds == "*" && self.iter.next_if_eq(" ").is_some() {
 			let s = self
 				.iter
 				.consume_while_case_holds(&|c| c != "\n")
@@ -391,79 +404,32 @@ impl<'a> Lexer<'a> {
 				s.to_string(),
 			)]));
 		}
-		if asterunds.chars().all(|x| x == '*') && self.iter.peek() == Some("\n")
+		let s = self
+			.iter
+			.consume_while_case_holds(&|c| c != marker)
+			.unwrap_or("");
+		if s.is_empty() ||
+			s.starts_with(char::is_whitespace) ||
+			s.ends_with(char::is_whitespace) ||
+			s.contains("\n\n") ||
+			self.iter.get_substring_ahead(asterunds.len()) != Some(asterunds)
 		{
-			return Ok(Token::HorizontalRule);
+			return Err(self.literal(start_index, asterunds.len()));
+		}
+		for _ in 0..asterunds.len() {
+			self.iter.next();
+		}
+		if marker == "_" &&
+			(self.iter.follows_word(start_index) ||
+				self.iter.precedes_word())
+		{
+			return Err(self.literal(start_index, asterunds.len()));
 		}
 		match asterunds.len() {
-			1 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				if self.iter.peek() != Some("*") ||
-					self.iter.peek() != Some("_")
-				{
-					self.iter.next();
-					Ok(Token::Italic(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
-				}
-			}
-			2 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				let trailing_astunds = self
-					.iter
-					.consume_while_case_holds(&|c| c == "*" || c == "_")
-					.unwrap_or("");
-				if trailing_astunds.len() == 2 {
-					Ok(Token::Bold(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
-				}
-			}
-			3 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				let trailing_astunds = self
-					.iter
-					.consume_while_case_holds(&|c| c == "*" || c == "_")
-					.unwrap_or("");
-				if trailing_astunds.len() == 3 {
-					Ok(Token::BoldItalic(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
-				}
-			}
-			_ => {
-				if asterunds.replace("\t", "").chars().all(|x| x == '*') ||
-					asterunds.chars().all(|x| x == '_')
-				{
-					Ok(Token::HorizontalRule)
-				} else {
-					Err(ParseError { content: asterunds })
-				}
-			}
+			1 => Ok(Token::Italic(s.to_string())),
+			2 => Ok(Token::Bold(s.to_string())),
+			3 => Ok(Token::BoldItalic(s.to_string())),
+			_ => Err(self.literal(start_index, asterunds.len())),
 		}
 	}
 
@@ -485,33 +451,19 @@ impl<'a> Lexer<'a> {
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
 		self.iter.next_if_eq("\n");
-		Ok(Token::BlockQuote(right_arrows.len() as u8, s.to_string()))
+		Ok(Token::BlockQuote(right_arrows.len(), s.to_string()))
 	}
 
 	pub(crate) fn lex_plus_minus(
 		&mut self,
 	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
-		let s = self
-			.iter
-			.consume_while_case_holds(&|c| c == "-" || c == "+")
-			.unwrap_or("");
-		match s.len() {
-			3..=usize::MAX => return Ok(Token::HorizontalRule),
-			2 => {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				})
-			}
-			1 => {}
-			_ => {
-				return Err(ParseError {
-					content: "string length error",
-				})
-			}
+		if let Some(rule) = self.lex_thematic_break() {
+			return Ok(rule);
+		}
+		self.iter.next();
+		if !matches!(self.iter.peek(), Some(" ") | Some("\t")) {
+			return Err(self.literal(start_index, 1));
 		}
 		let line_index = self.iter.get_index();
 		let mut list_element_tokens = vec![Token::Plaintext(
@@ -545,17 +497,17 @@ impl<'a> Lexer<'a> {
 			));
 		} else {
 			// List entries may contain other lists
-			match self.iter.peek_line_ahead() {
-				Some(s) if s.starts_with("  ") => {
-					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens.append(&mut Parser::lex(line, &[]))
-				}
-				Some(s) if s.starts_with("\t") => {
-					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens
-						.append(&mut Parser::lex(&line[1..], &[]))
-				}
-				_ => {}
+			let mut nested = String::new();
+			while let Some(s) = self
+				.iter
+				.peek_line_ahead()
+				.and_then(|l| l.strip_prefix("  ").or(l.strip_prefix("\t")))
+			{
+				self.iter.consume_line_ahead();
+				nested.push_str(s);
+			}
+			if !nested.trim().is_empty() {
+				list_element_tokens.push(Token::Plaintext(nested));
 			}
 			return Ok(Token::UnorderedListEntry(list_element_tokens));
 		}
@@ -587,13 +539,11 @@ impl<'a> Lexer<'a> {
 					.iter
 					.consume_while_case_holds(&|s| s == "~")
 					.unwrap_or("");
-				if lead_tildes.len() != tail_tildes.len() {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
+				if lead_tildes.len() != tail_tildes.len() ||
+					line.is_empty() ||
+					line.contains("\n\n")
+				{
+					return Err(self.literal(start_index, lead_tildes.len()));
 				}
 				return Ok(Token::Strikethrough(line.to_string()));
 			}
@@ -605,68 +555,64 @@ impl<'a> Lexer<'a> {
 		}
 	}
 
-	fn lex_backticks(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	fn lex_backticks(
+		&mut self,
+		block: bool,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		let leading_ticks = self
 			.iter
 			.consume_while_case_holds(&|c| c == "`")
 			.unwrap_or("");
-		let mut lang = "";
-		if leading_ticks.len() == 3 {
-			if self.iter.next_if_eq("\n") != Some(&"\n") {
-				lang = self
-					.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or("");
-				self.iter.next();
+		let content_index = self.iter.get_index();
+		if block && leading_ticks.len() >= 3 {
+			if let Some(block) = self.lex_fenced_code(leading_ticks) {
+				return Ok(block);
 			}
-			let s = self
-				.iter
-				.consume_while_case_holds(&|c| c != "`")
-				.unwrap_or("");
+			self.iter.update_index_to(content_index);
+		}
+
+		loop {
+			self.iter.consume_while_case_holds(&|c| c != "`");
+			let s = self.iter.get_substring_from(content_index).unwrap_or("");
 			let trailing_ticks = self
 				.iter
 				.consume_while_case_holds(&|c| c == "`")
 				.unwrap_or("");
-			if leading_ticks.len() != trailing_ticks.len() {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				});
-			} else {
-				return Ok(Token::CodeBlock(s.to_string(), lang.to_string()));
+			if trailing_ticks.is_empty() || s.contains("\n\n") {
+				return Err(self.literal(start_index, leading_ticks.len()));
+			}
+			if trailing_ticks == leading_ticks {
+				if s.starts_with(' ') && s.ends_with(' ') && s.trim() != "" {
+					return Ok(Token::Code(s[1..s.len() - 1].to_string()));
+				}
+				return Ok(Token::Code(s.to_string()));
 			}
 		}
+	}
 
-		// let s = self.iter.consume_while_case_holds(&|c| c != "`" && c!=
-		// "\n").unwrap_or("");
-		let tail = &(0..leading_ticks.len() as u64)
-			.map(|_| "`")
-			.collect::<String>();
-		let s = self.iter.consume_until_tail_is(tail).unwrap_or("");
-		if !s.ends_with(tail) {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		} else {
-			let s = s.trim_end_matches(tail);
-			if s.starts_with(' ') && s.ends_with(' ') {
-				return Ok(Token::Code(
-					s.trim_start_matches(' ').trim_end_matches(' ').to_string(),
+	fn lex_fenced_code(&mut self, fence: &str) -> Option<Token<'a>> {
+		let lang = self.iter.consume_while_case_holds(&|c| c != "\n")?;
+		if lang.contains('`') || self.iter.next_if_eq("\n").is_none() {
+			return None;
+		}
+		let content_index = self.iter.get_index();
+		loop {
+			let content = self.iter.get_substring_from(content_index)?;
+			let line = self.iter.consume_line_ahead()?.trim();
+			if line.len() >= fence.len() && line.chars().all(|c| c == '`') {
+				return Some(Token::CodeBlock(
+					content.to_string(),
+					lang.trim().to_string(),
 				));
 			}
-			return Ok(Token::Code(s.to_string()));
 		}
-
-		// leading_ticks.len() == 3. Check for lang
 	}
 
-	pub(crate) fn lex_links(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	pub(crate) fn lex_links(
+		&mut self,
+		block: bool,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		if self.iter.next_if_eq("[") != Some(&"[") {
 			return Err(ParseError { content: "" });
@@ -675,56 +621,41 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c != "]")
 			.unwrap_or("");
-		if self.iter.next_if_eq("]") != Some(&"]") {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
+		if self.iter.next_if_eq("]") != Some(&"]") || title.contains("\n\n") {
+			return Err(self.literal(start_index, 1));
 		}
 		// Parse footnotes big and small
-		if title.starts_with("^") && self.iter.next_if_eq(":") == Some(&":") {
-			let ref_id = title.strip_prefix("^").unwrap_or("");
+		if let Some(ref_id) = title
+			.strip_prefix("^")
+			.filter(|id| !id.is_empty() && !id.contains(char::is_whitespace))
+		{
+			if !block || self.iter.next_if_eq(":") != Some(&":") {
+				return Err(ParseError {
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
+				});
+			}
 			let note_index = self.iter.get_index();
 			loop {
 				self.iter.consume_while_case_holds(&|c| c != "\n");
 				self.iter.next();
-				if self.iter.peek() != Some(&" ") &&
-					self.iter.peek() != Some(&"\t")
-				{
-					break;
-				}
 				if self.iter.next_if_eq("\t") == Some(&"\t") {
 					continue;
 				}
-				if self.iter.peek() == Some(&" ") {
-					let spaces = self
-						.iter
-						.consume_while_case_holds(&|c| c == " ")
-						.unwrap_or("");
-					match spaces.len() {
-						2 | 4 => {}
-						_ => {
-							return Err(ParseError {
-								content: self
-									.iter
-									.get_substring_from(start_index)
-									.unwrap_or(""),
-							})
-						}
+				let line_index = self.iter.get_index();
+				let spaces = self
+					.iter
+					.consume_while_case_holds(&|c| c == " ")
+					.unwrap_or("");
+				match spaces.len() {
+					2 | 4 => continue,
+					_ => {
+						self.iter.update_index_to(line_index);
+						break;
 					}
-					continue;
 				}
-				break;
-			}
-			if ref_id.contains(char::is_whitespace) {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				});
 			}
 			return Ok(Token::Footnote(
 				ref_id.to_string(),
@@ -736,61 +667,39 @@ impl<'a> Lexer<'a> {
 			));
 		}
 		if self.iter.next_if_eq("(") != Some(&"(") {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
+			return Err(self.literal(start_index, 1));
 		}
 		let link = self
 			.iter
 			.consume_while_case_holds(&|c| c != ")" && c != " ")
 			.unwrap_or("");
-		if self.iter.peek() != Some(&")") && self.iter.peek() != Some(&" ") {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		}
-		if self.iter.next_if_eq(")") == Some(&")") {
-			match validate_link(link) {
-				Ok(vl) => {
-					return Ok(Token::Link(vl, Some(title.to_string()), None))
-				}
-				Err(se) => {
-					return Err(ParseError {
-						content: &se.content,
-					})
-				}
-			}
-		}
+		let mut hover = None;
 		if self.iter.peek() == Some(&" ") {
-			let hover = self
+			let text = self
 				.iter
 				.consume_while_case_holds(&|c| c != ")")
-				.unwrap_or("");
-
-			self.iter.skip_while_true(|c| c != "\n");
-			self.iter.next();
-			match validate_link(link) {
-				Ok(vl) => {
-					return Ok(Token::Link(
-						vl,
-						Some(title.to_string()),
-						Some(hover.to_string()),
-					))
-				}
-				Err(se) => {
-					return Err(ParseError {
-						content: &se.content,
-					})
-				}
+				.unwrap_or("")
+				.trim();
+			hover = ['"', '\'']
+				.iter()
+				.find_map(|q| text.strip_prefix(*q)?.strip_suffix(*q))
+				.or(Some(text))
+				.filter(|t| !t.is_empty());
+		}
+		if self.iter.next_if_eq(")") != Some(&")") {
+			return Err(self.literal(start_index, 1));
+		}
+		match validate_link(link) {
+			Ok(vl) => Ok(Token::Link(
+				vl,
+				Some(title.to_string()),
+				hover.map(str::to_string),
+			)),
+			Err(se) => {
+				warn!("Link target rejected: {:?}", se.content);
+				Err(self.literal(start_index, 1))
 			}
 		}
-		Err(ParseError { content: "" })
 	}
 
 	pub(crate) fn lex_images(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -798,28 +707,18 @@ impl<'a> Lexer<'a> {
 		if self.iter.next_if_eq("!") != Some(&"!") {
 			return Err(ParseError { content: "" });
 		}
-		let link_result = self.lex_links();
+		let link_result = self.lex_links(false);
 		match link_result {
-			Err(_e) => {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				})
-			}
 			Ok(Token::Link(link, title, _)) => {
-				return Ok(Token::Image(link.content.to_string(), title))
-			}
-			_ => {
-				return Err(ParseError {
-					content: "Non link token returned from lex_links",
-				})
+				return Ok(Token::Image(link.to_string(), title))
 			}
+			_ => return Err(self.literal(start_index, 1)),
 		}
 	}
+
 	pub(crate) fn lex_side_carrot(
 		&mut self,
+		block: bool,
 	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		if self.iter.next_if_eq("<") != Some("<") {
@@ -831,83 +730,47 @@ impl<'a> Lexer<'a> {
 			.consume_while_case_holds(&|c| c != ">")
 			.unwrap_or("");
 		match (s, self.iter.next_if_eq(">")) {
-			("details", Some(">")) => {
-				self.iter.next_if_eq(&"\r");
-				if !self.iter.next_if_eq(&"\n").is_some() {
-					return Err(ParseError { content: s });
-				}
-				return self.parse_details();
-			}
-			(_, Some(">")) if s.len() >= 1 => {
-				if s.contains(char::is_whitespace) {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
-				}
-				match validate_link(s) {
-					Ok(vl) if vl.scheme.is_some() => {
-						return Ok(Token::Link(vl, None, None))
-					} // Auto links require a scheme
-					_ => {
-						return Err(ParseError {
-							content: self
-								.iter
-								.get_substring_from(start_index)
-								.unwrap_or(""),
-						})
-					}
+			("details", Some(">")) if block => {
+				match self.parse_details() {
+					Some(details) => return Ok(details),
+					None => return Err(self.literal(start_index, 1)),
 				}
 			}
-			(_, Some(">")) if s.len() == 0 => {
-				return Err(ParseError { content: "<>" })
-			}
-			(_, _) => return Err(ParseError { content: s }),
+			(_, Some(">")) => match validate_link(s) {
+				Ok(vl) if vl.scheme.is_some() => {
+					return Ok(Token::Link(vl, None, None))
+				} // Auto links require a scheme
+				_ => return Err(self.literal(start_index, 1)),
+			},
+			(_, _) => return Err(self.literal(start_index, 1)),
 		}
 	}
 
-	fn parse_details(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let mut summary_line = self
+	fn parse_details(&mut self) -> Option<Token<'a>> {
+		self.iter.next_if_eq("\n")?;
+		let summary_line = self
 			.iter
-			.consume_while_case_holds(&|c| c != "\n" && c != "\r")
-			.unwrap_or("");
-		self.iter.next_if_eq("\r");
-		if (!summary_line.starts_with("<summary>") ||
-			!summary_line.ends_with("</summary>")) &&
-			!summary_line.len() >= 20
-		{
-			return Err(ParseError {
-				content: summary_line,
-			});
-		}
-		summary_line = summary_line
-			.strip_prefix("<summary>")
-			.unwrap()
-			.strip_suffix("</summary>")
-			.unwrap_or("");
+			.consume_while_case_holds(&|c| c != "\n")
+			.unwrap_or("")
+			.strip_prefix("<summary>")?
+			.strip_suffix("</summary>")?;
 		let remaining_text_index = self.iter.get_index();
-		let mut remaining_text =
-			self.iter.consume_until_tail_is("</details>").unwrap_or("");
-		if remaining_text.contains("<details>") {
-			let mut opens = remaining_text.matches("<details>").count();
-			let mut closes = remaining_text.matches("</details>").count();
-			while opens == closes {
-				self.iter.consume_until_tail_is("</details>").unwrap_or("");
-				remaining_text = self
-					.iter
-					.get_substring_from(remaining_text_index)
-					.unwrap_or("");
-				opens = remaining_text.matches("<details>").count();
-				closes = remaining_text.matches("</details>").count();
+		loop {
+			self.iter.peek()?;
+			self.iter.consume_until_tail_is("</details>")?;
+			let remaining_text =
+				self.iter.get_substring_from(remaining_text_index)?;
+			let opens = remaining_text.matches("<details>").count();
+			let closes = remaining_text.matches("</details>").count();
+			if closes > opens {
+				let inner_tokens =
+					Parser::lex(remaining_text.strip_suffix("</details>")?, &[]);
+				return Some(Token::Detail(
+					summary_line.to_string(),
+					inner_tokens,
+				));
 			}
 		}
-		let inner_tokens = Parser::lex(
-			remaining_text.strip_suffix("</details>").unwrap_or(""),
-			&[],
-		);
-		Ok(Token::Detail(summary_line.to_string(), inner_tokens))
 	}
 
 	pub(crate) fn lex_pipes(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -921,37 +784,29 @@ impl<'a> Lexer<'a> {
 			);
 			self.iter.next();
 		}
-		if lines.len() < 3 {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		}
-		if !lines
-			.iter()
-			.all(|l| l.matches("|").count() == lines[0].matches("|").count())
-		{
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		}
-		let headings: Vec<_> = lines
-			.remove(0)
-			.split("|")
-			.filter(|&x| x != "")
-			.map(|x| x.trim().to_string())
+		let mut lines: Vec<Vec<&str>> = lines
+			.into_iter()
+			.map(|l| {
+				let l = l.trim();
+				l.strip_suffix("|").unwrap_or(l).split("|").map(str::trim).collect()
+			})
 			.collect();
+		if lines.len() < 3 ||
+			lines.iter().any(|l| l.len() != lines[0].len()) ||
+			!lines[1].iter().all(|x| {
+				let dashes = x.strip_prefix(":").unwrap_or(x);
+				let dashes = dashes.strip_suffix(":").unwrap_or(dashes);
+				!dashes.is_empty() && dashes.chars().all(|c| c == '-')
+			}) {
+			return Err(self.literal(start_index, 1));
+		}
+		let headings: Vec<_> =
+			lines.remove(0).into_iter().map(str::to_string).collect();
 		let alignments: Vec<_> = lines
 			.remove(0)
-			.split("|")
-			.filter(|&x| x != "")
+			.into_iter()
 			.map(|x| {
-				match (x.trim().starts_with(":"), x.trim().ends_with(":")) {
+				match (x.starts_with(":"), x.ends_with(":")) {
 					(true, false) => Alignment::Left,
 					(true, true) => Alignment::Center,
 					(false, true) => Alignment::Right,
@@ -961,14 +816,9 @@ impl<'a> Lexer<'a> {
 			.collect();
 		let mut rows = Vec::new();
 		for l in lines.into_iter() {
-			let elements: Vec<&str> = l
-				.split("|")
-				.filter(|&x| x != "")
-				.map(|x| x.trim())
-				.collect();
 			let mut r = Vec::new();
-			for e in elements.into_iter() {
-				let mut inner_tokens = Parser::lex(&e, &[]);
+			for e in l.into_iter() {
+				let mut inner_tokens = Parser::lex(e, &BLOCK_MARKERS);
 				inner_tokens.retain(|token| token.is_usable_in_table());
 				r.push(inner_tokens);
 			}
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 860c518..56b10b2 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -81,123 +81,69 @@ impl Parser {
 			let token = token_iter.next().unwrap();
 
 			debug!("Processing token: {:?}", token);
-			match token {
-				Token::Plaintext(t) if t.trim().is_empty() => {} // ignore
-				Token::Tab | Token::DoubleTab => {}
-				Token::OrderedListEntry(_) |
-				Token::UnorderedListEntry(_) |
-				Token::Newline
-					if in_ordered_list | in_unordered_list => {}
-				Token::TaskListItem(_, _) | Token::Newline if in_task_list => {}
-				Token::Plaintext(_) |
-				Token::Italic(_) |
-				Token::Bold(_) |
-				Token::BoldItalic(_) |
-				Token::Strikethrough(_) |
-				Token::Link(_, _, _)
-					if !in_paragraph =>
+			// A paragraph ends at a blank line and at every block
+			if in_paragraph && !token.is_inline() {
+				in_paragraph = false;
+				Self::close_paragraph(&mut html);
+			}
+			// Any other block ends at the first token not belonging to it
+			if !token.is_blank() &&
+				!matches!(token, Token::Newline | Token::Footnote(_, _))
+			{
+				if in_ordered_list &&
+					!matches!(token, Token::OrderedListEntry(_))
 				{
-					for _i in 0..quote_level {
-						html.push_str("</blockquote>");
-						quote_level -= 1;
-					}
-					in_paragraph = true;
-					html.push_str("<p>")
-				}
-				_ if in_ordered_list => {
 					in_ordered_list = false;
 					html.push_str("</ol>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
 				}
-				_ if in_unordered_list => {
+				if in_unordered_list &&
+					!matches!(token, Token::UnorderedListEntry(_))
+				{
 					in_unordered_list = false;
 					html.push_str("</ul>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
 				}
-				_ if in_task_list => {
+				if in_task_list && !matches!(token, Token::TaskListItem(_, _)) {
 					in_task_list = false;
 					html.push_str("</ul>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
 				}
-				Token::CodeBlock(_, _) |
-				Token::Newline |
-				Token::Header(_, _, _)
-					if in_paragraph =>
-				{
-					in_paragraph = false;
-					html.push_str("</p>\n")
-				}
-				Token::BlockQuote(_, _) | Token::Newline if quote_level > 0 => {
+				if in_code && !matches!(token, Token::IndentedCode(_)) {
+					in_code = false;
+					Self::close_code(&mut html);
+					html.push('\n');
 				}
-				Token::CodeBlock(_, _) |
-				Token::Newline |
-				Token::Header(_, _, _)
-					if in_paragraph =>
-				{
-					in_paragraph = false;
-					html.push_str("</p>\n")
+				if !matches!(token, Token::BlockQuote(_, _)) {
+					for _i in 0..quote_level {
+						html.push_str("</blockquote>\n");
+					}
+					quote_level = 0;
 				}
-				Token::Code(_) if !in_code => {
-					html.push_str("<pre><code>");
-					in_code = true;
+				if token.is_inline() && !in_paragraph {
+					in_paragraph = true;
+					html.push_str("<p>");
 				}
-				_ => {}
 			}
 
 			match token {
 				Token::Plaintext(t) => {
-					let mut t: String = t.to_string();
-					if t.trim().is_empty() {
-						continue;
-					}
-
-					t.rfind('\n').map(|n| {
-						let (_before, after) = t.split_at(n);
-						if after.chars().all(|c| c.is_whitespace()) {
-							t = t.trim_end_matches(after).to_string();
-						}
-					});
-
-					if t.contains("[^") && t.contains("]") {
-						let plaintext_tokens = t.split("[^");
-						let mut s = String::new();
-						let mut count = 1;
-						for tok in plaintext_tokens {
-							if tok.trim_end().ends_with("]") {
-								let tok = tok.trim_end().trim_end_matches(']');
-								s.push_str(
-									format!(
-										"<sup id=\"fnref:{reference}\" \
-										 role=\"doc-noteref\"><a \
-										 href=\"#fn:{reference}\" \
-										 class=\"footnote\" \
-										 rel=\"footnote\">{ref_count}</a></\
-										 sup>",
-										reference =
-											Self::sanitize_display_text(tok),
-										ref_count = count
-									)
-									.as_str(),
-								);
-								count += 1;
-							} else {
-								s.push_str(tok)
-							}
+					match t
+						.strip_prefix("[^")
+						.and_then(|t| t.strip_suffix("]"))
+					{
+						Some(reference) => html.push_str(
+							format!(
+								"<sup id=\"fnref:{reference}\" \
+								 role=\"doc-noteref\"><a \
+								 href=\"#fn:{reference}\" class=\"footnote\" \
+								 rel=\"footnote\">{reference}</a></sup>",
+								reference =
+									Self::sanitize_display_text(reference),
+							)
+							.as_str(),
+						),
+						None if in_paragraph => {
+							html.push_str(&Self::escape_html(t))
 						}
-						html.push_str(&s);
-					} else {
-						html.push_str(&Self::sanitize_display_text(
-							t.trim_start_matches('\n'),
-						))
+						None => {}
 					}
 				}
 				Token::Header(l, t, lbl) => {
@@ -261,11 +207,7 @@ impl Parser {
 							}
 							Token::Plaintext(text) => {
 								let text =
-									&Self::render(text.trim_start_matches(" "))
-										.replace(
-											"<pre><code>",
-											"<pre><code>  ",
-										);
+									&Self::render(text.trim_start_matches(" "));
 								html.push_str(text);
 							}
 							_ => {}
@@ -273,35 +215,26 @@ impl Parser {
 					}
 					html.push_str("</li>\n".to_string().as_str());
 				}
-				Token::Image(l, t) => match (l, t) {
-					(l, None) if l.trim() == "" => {
-						html.push_str("<p><img src=\"data:,\"></p>")
-					}
-					(l, Some(t)) if l.trim() == "" => html.push_str(
-						format!(
-							"<p><img src=\"data:,\" alt=\"{text}\"></p>",
-							text = Self::sanitize_display_text(t)
-						)
-						.as_str(),
-					),
-					(l, None) => html.push_str(
-						format!(
-							"<p><img src=\"{link}\"> \
-							 referrerpolicy=\"no-referrer\"></p>",
-							link = l
-						)
-						.as_str(),
-					),
-					(l, Some(t)) => html.push_str(
+				Token::Image(l, t) => {
+					let alt = match t {
+						Some(t) => format!(
+							" alt=\"{}\"",
+							Self::sanitize_display_text(t)
+						),
+						None => String::new(),
+					};
+					let src = match l.trim() {
+						"" => "data:,",
+						l => l,
+					};
+					html.push_str(
 						format!(
-							"<p><img src=\"{link}\" alt=\"{text}\" \
-							 referrerpolicy=\"no-referrer\"></p>",
-							link = l,
-							text = Self::sanitize_display_text(t)
+							"<img src=\"{src}\"{alt} \
+							 referrerpolicy=\"no-referrer\">"
 						)
 						.as_str(),
-					),
-				},
+					)
+				}
 				Token::Link(l, t, ht) => match (t, ht) {
 					(Some(t), Some(ht)) => html.push_str(
 						format!(
@@ -338,15 +271,11 @@ impl Parser {
 					),
 				},
 				Token::Detail(summary, inner_tokens) => {
-					if in_paragraph {
-						html.push_str("</p>\n");
-						in_paragraph = false;
-					}
 					let inner_html = Self::parse(inner_tokens);
 					html.push_str(
 						format!(
-							"<details>\n<summary>{sum}</summary>\n{in_html}\\
-							 n</details>",
+							"<details>\n<summary>{sum}</summary>\n{in_html}\
+							 </details>\n",
 							sum = Self::sanitize_display_text(summary),
 							in_html = inner_html
 						)
@@ -372,10 +301,6 @@ impl Parser {
 					.as_str(),
 				),
 				Token::BlockQuote(l, t) => {
-					if in_paragraph {
-						html.push_str("</p>");
-						in_paragraph = false;
-					}
 					match quote_level {
 						_ if l == &quote_level => {}
 						_ if l < &quote_level => {
@@ -493,8 +418,11 @@ impl Parser {
 											)
 											.as_str(),
 										),
-									_ => row_string
-										.push_str(&Self::parse(&elem.1)),
+									token => row_string.push_str(
+										&Self::parse_inline(
+											std::slice::from_ref(token),
+										),
+									),
 								}
 							}
 							html.push_str(
@@ -519,8 +447,32 @@ impl Parser {
 					.as_str(),
 				),
 				Token::Code(t) => html.push_str(
-					format!("{}", Self::sanitize_display_text(t)).as_str(),
+					format!("<code>{}</code>", Self::escape_html(t)).as_str(),
 				),
+				Token::IndentedCode(t) => {
+					if !in_code {
+						in_code = true;
+						html.push_str("<pre><code>");
+					}
+					html.push_str(&Self::escape_html(t))
+				}
+				Token::CodeBlock(t, lang) => {
+					html.push_str("<pre><code");
+					if !lang.is_empty() {
+						html.push_str(
+							format!(
+								" class=\"language-{}\"",
+								Self::escape_html(lang)
+							)
+							.as_str(),
+						);
+					}
+					html.push_str(
+						format!(">{}</code></pre>\n", Self::escape_html(t))
+							.as_str(),
+					);
+				}
+				Token::LineBreak if in_paragraph => html.push_str("<br />"),
 				Token::HorizontalRule => html.push_str("<hr />\n"),
 				Token::Newline => {}
 				Token::Tab => html.push('\t'),
@@ -533,7 +485,7 @@ impl Parser {
 		}
 
 		if in_paragraph {
-			html.push_str("</p>\n");
+			Self::close_paragraph(&mut html);
 		}
 		if quote_level > 0 {
 			for _i in (0..quote_level).rev() {
@@ -549,12 +501,8 @@ impl Parser {
 		if html.chars().last().unwrap_or(' ') != '\n' {
 			html.push('\n');
 		}
-		if in_code && !matches!(token_iter.peek(), Some(Token::Code(_))) {
-			match html.chars().last().unwrap() {
-				'\n' => {}
-				_ => html.push('\n'),
-			}
-			html.push_str("</code></pre>");
+		if in_code {
+			Self::close_code(&mut html);
 		}
 
 		if references.len() > 0 {
@@ -588,7 +536,42 @@ impl Parser {
 		html
 	}
 
+	/// Closes a paragraph, without the blanks and line breaks at its end.
+	fn close_paragraph(html: &mut String) {
+		let blanks = [' ', '\t', '\n'];
+		let mut text = html.trim_end_matches(blanks);
+		while let Some(t) = text.strip_suffix("<br />") {
+			text = t.trim_end_matches(blanks);
+		}
+		html.truncate(text.len());
+		html.push_str("</p>\n");
+	}
+
+	fn close_code(html: &mut String) {
+		if !html.ends_with('\n') {
+			html.push('\n');
+		}
+		html.push_str("</code></pre>");
+	}
+
+	/// Escapes raw Markdown text, resolving its backslash escapes.
 	pub(crate) fn sanitize_display_text(source: &str) -> String {
+		let mut text = String::with_capacity(source.len());
+		let mut chars = source.chars().peekable();
+		while let Some(c) = chars.next() {
+			if c != '\\' ||
+				!chars.peek().is_some_and(char::is_ascii_punctuation)
+			{
+				text.push(c);
+			} else if let Some(escaped) = chars.next() {
+				text.push(escaped);
+			}
+		}
+		Self::escape_html(&text)
+	}
+
+	/// Escapes text that contains no backslash escapes (any more).
+	pub(crate) fn escape_html(source: &str) -> String {
 		source
 			.replace('&', "&amp;")
 			.replace('<', "&lt;")
@@ -600,7 +583,6 @@ impl Parser {
 			.replace('{', "&lbrace;")
 			.replace('}', "&rbrace;")
 			.replace('|', "&mid;")
-			.replace('\\', "")
 			.replace('~', "&tilde;")
 			.replace(')', "&#41;")
 			.replace('(', "&#40;")
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 5a99f85..f3dfdba 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -39,11 +39,13 @@ pub enum Token<'a> {
 	Strikethrough(String),
 	/// str: Text to be placed within an inline code tag. eg. <code>str</code>
 	Code(String),
+	/// str: One line of an indented code block
+	IndentedCode(String),
 	/// First str: Text to be placed within a multi-line code tag. Second str:
 	/// Language
 	CodeBlock(String, String),
-	/// u8: Block quote level. str: Block quote text
-	BlockQuote(u8, String),
+	/// usize: Block quote level. str: Block quote text
+	BlockQuote(usize, String),
 	/// str: Link. Option<str>: Title for link.
 	Image(String, Option<String>),
 	/// str: Link. First Option<str>: Title for link. Second Option<str>: Hover
@@ -87,6 +89,23 @@ impl Token<'_> {
 			Token::Italic(_) => true,
 			Token::BoldItalic(_) => true,
 			Token::Plaintext(_) => true,
+			Token::Strikethrough(_) => true,
+			Token::Image(_, _) => true,
+			_ => false,
+		}
+	}
+
+	/// Whether the token is part of the text of a paragraph.
+	pub(crate) fn is_inline(&self) -> bool {
+		self.is_usable_in_table() || matches!(self, Token::LineBreak)
+	}
+
+	/// Whether the token is nothing but whitespace.
+	pub(crate) fn is_blank(&self) -> bool {
+		match self {
+			Token::Plaintext(t) => {
+				t.chars().all(|c| c == ' ' || c == '\t' || c == '\n')
+			}
 			_ => false,
 		}
 	}
-- 
2.43.0


From 173d3444e40e03381bbd39f20d8154f8b531929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 09/17] fix: write files completely when the system writes them
 in parts

---
 smd-core/src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/fs.rs b/smd-core/src/fs.rs
index 098c219..3bf8cc7 100644
--- a/smd-core/src/fs.rs
+++ b/smd-core/src/fs.rs
@@ -47,11 +47,13 @@ pub fn write_to_file(path: &PathBuf, content: &str) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(content.as_bytes()) {
-		Ok(bytes_written) => {
+	match file.write_all(content.as_bytes()) {
+		Ok(()) => {
 			info!(
 				"\"{}\" {}L, {}B written",
-				path_str, line_count, bytes_written
+				path_str,
+				line_count,
+				content.len()
 			);
 			Ok(())
 		}
@@ -69,9 +71,9 @@ pub fn write_bytes(path: &PathBuf, bytes: &Vec<u8>) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(bytes) {
-		Ok(bytes_written) => {
-			info!("\"{}\", {}B written", path_str, bytes_written);
+	match file.write_all(bytes) {
+		Ok(()) => {
+			info!("\"{}\", {}B written", path_str, bytes.len());
 			Ok(())
 		}
 		Err(e) => {
-- 
2.43.0


From 7e0d9fbfe0f5de35b7a6bf5b30423bcd03f1875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:55 +0000
Subject: [PATCH 10/17] fix: refuse to overwrite the input with the output

---
 smd/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index b9c8950..fe84277 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -9,7 +9,10 @@ use smd_core::{
 		self,
 		PDFConverter,
 	},
-	error::Result,
+	error::{
+		Error,
+		Result,
+	},
 	fs,
 };
 
@@ -36,9 +39,18 @@ pub fn run(cli: Cli) -> Result<()> {
 			let result = gfm::Parser::render(&content);
 
 			let mut out_path = args.input.clone();
+			out_path.set_extension(match args.output {
+				args::OutputFileFormat::Html => HTML_FILE_ENDING,
+				args::OutputFileFormat::Pdf => PDF_FILE_ENDING,
+			});
+			if out_path == args.input {
+				return Err(Error::CustomError(format!(
+					"The output would overwrite the input `{}`",
+					args.input.display()
+				)));
+			}
 
 			if args.output.eq(&args::OutputFileFormat::Html) {
-				out_path.set_extension(HTML_FILE_ENDING);
 				fs::write_to_file(&out_path, &result)?;
 
 				return Ok(());
@@ -46,7 +58,6 @@ pub fn run(cli: Cli) -> Result<()> {
 
 			let converted = match args.output {
 				args::OutputFileFormat::Pdf => {
-					out_path.set_extension(PDF_FILE_ENDING);
 					convert::convert_html::<PDFConverter>(&result)?
 				}
 				_ => unreachable!(),
-- 
2.43.0


From e7a3b7e09b2ae35c539ffcfb19033fea7ef67860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:56 +0000
Subject: [PATCH 11/17] fix: convert to pdf through a temporary file of its own
 that is always removed

---
 smd-core/src/convert.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/convert.rs b/smd-core/src/convert.rs
index 3662974..5c1cb9e 100644
--- a/smd-core/src/convert.rs
+++ b/smd-core/src/convert.rs
@@ -1,6 +1,8 @@
 use std::{
 	env,
 	fs,
+	io::ErrorKind,
+	path::PathBuf,
 };
 
 use headless_chrome::types::PrintToPdfOptions;
@@ -25,16 +27,35 @@ where
 
 pub struct PDFConverter;
 
+/// Creates an empty html file in the current directory, without touching any
+/// file that is already there.
+fn create_tmpfile() -> Result<PathBuf> {
+	let current_dir = env::current_dir()?;
+	let mut tmpfile = current_dir.join("tmp.html");
+	for n in 1.. {
+		match fs::File::create_new(&tmpfile) {
+			Err(e) if e.kind() == ErrorKind::AlreadyExists => {
+				tmpfile = current_dir.join(format!("tmp{n}.html"));
+			}
+			created => {
+				created?;
+				break;
+			}
+		}
+	}
+	Ok(tmpfile)
+}
+
 impl Convert for PDFConverter {
 	fn from_html(html: &str) -> Result<Vec<u8>> {
 		let browser = BrowserSession::initialize()?;
 
-		let current_dir = env::current_dir()?;
-		let tmpfile = current_dir.join("tmp.html");
-
-		write_to_file(&tmpfile, html)?;
-		let tab_id = browser.open_file(&tmpfile)?;
-		fs::remove_file(tmpfile)?;
+		let tmpfile = create_tmpfile()?;
+		let opened = write_to_file(&tmpfile, html)
+			.and_then(|_| browser.open_file(&tmpfile));
+		let removed = fs::remove_file(tmpfile);
+		let tab_id = opened?;
+		removed?;
 
 		let options = PrintToPdfOptions {
 			margin_top: Some(0.0),
-- 
2.43.0


From bfd2b105fee4685755beed3f940f50997bf40813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:57 +0000
Subject: [PATCH 12/17] fix: never overwrite a configuration that cannot be
 inspected or appears meanwhile

---
 smd-core/src/config.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 1ffdd2c..32de41a 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -9,6 +9,7 @@ use serde::{
 	Deserialize,
 	Serialize,
 };
+use std::io::ErrorKind;
 
 #[derive(Debug, Deserialize, Serialize, Default)]
 pub struct Config {
@@ -72,15 +73,15 @@ impl Config {
 		);
 		let path = dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);
 
-		if path.exists() {
-			return Err(Error::ConfigAlreadyExistsError(
-				path.to_string_lossy().to_string(),
-			));
-		}
-
 		if let Some(parent) = path.parent() {
 			std::fs::create_dir_all(parent)?;
 		}
+		std::fs::File::create_new(&path).map_err(|e| match e.kind() {
+			ErrorKind::AlreadyExists => Error::ConfigAlreadyExistsError(
+				path.to_string_lossy().to_string(),
+			),
+			_ => Error::IoError(e),
+		})?;
 		fs::write_to_file(&path, &toml)?;
 
 		Ok(())
-- 
2.43.0


From ce92b185fc1989b83f579233a49b06effd77c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:59 +0000
Subject: [PATCH 13/17] fix: escape | and ~ as references to these characters

&mid; and &tilde; are other characters (U+2223 and U+02DC).
---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 56b10b2..69d8479 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -582,8 +582,8 @@ impl Parser {
 			.replace(']', "&rbrack;")
 			.replace('{', "&lbrace;")
 			.replace('}', "&rbrace;")
-			.replace('|', "&mid;")
-			.replace('~', "&tilde;")
+			.replace('|', "&vert;")
+			.replace('~', "&#126;")
 			.replace(')', "&#41;")
 			.replace('(', "&#40;")
 	}
-- 
2.43.0


From 01746e4e63c31c1557c71a77a3471d3f1ff58b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:46 +0000
Subject: [PATCH 14/17] fix: recognise an empty heading on the last line

A line of one to six hashes is a heading whether or not a line end follows it.
---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 56c793b..3692dc9 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -237,7 +237,7 @@ impl<'a> Lexer<'a> {
 		}
 		if self.iter.next_if_eq(" ").is_none() &&
 			self.iter.next_if_eq("\t").is_none() &&
-			self.iter.peek() != Some("\n")
+			!matches!(self.iter.peek(), None | Some("\n"))
 		{
 			return Err(ParseError { content: hashes });
 		}
-- 
2.43.0


From 525fbf04202499dae1e53a48a0afbdc5772129ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:00 +0000
Subject: [PATCH 15/17] fix: skip blanks before a link target

`[a]( b)` linked to nowhere, with the target as its title.
---
 gfm/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 3692dc9..45a7284 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -669,6 +669,7 @@ impl<'a> Lexer<'a> {
 		if self.iter.next_if_eq("(") != Some(&"(") {
 			return Err(self.literal(start_index, 1));
 		}
+		self.iter.consume_while_case_holds(&|c| c == " ");
 		let link = self
 			.iter
 			.consume_while_case_holds(&|c| c != ")" && c != " ")
-- 
2.43.0


From ba1a3515f8789aec95db5c63cc8566fd664163c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:42 +0000
Subject: [PATCH 16/17] fix: print the version for -V and --version

---
 smd/src/args.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smd/src/args.rs b/smd/src/args.rs
index 1241706..79ce7c9 100644
--- a/smd/src/args.rs
+++ b/smd/src/args.rs
@@ -17,6 +17,7 @@ pub enum OutputFileFormat {
 #[derive(Debug, Parser)]
 #[command(
     version,
+    propagate_version = true,
     rename_all_env = "screaming-snake",
     help_template = "\
 {before-help}{name} v{version} by {author-with-newline}
@@ -51,7 +52,7 @@ pub struct Cli {
 	#[arg(
         short = 'V',
         long,
-        action = ArgAction::Help,
+        action = ArgAction::Version,
         global = true,
         help = "Prints version information",
         help_heading = Some("FLAGS"),
-- 
2.43.0


From 9b30f2f65369ec7addc49b5a27879632a7b86a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:45 +0000
Subject: [PATCH 17/17] fix: refuse to overwrite the input through a link

---
 smd/src/lib.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index fe84277..a655dc1 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -15,6 +15,10 @@ use smd_core::{
 	},
 	fs,
 };
+use std::{
+	io::ErrorKind,
+	path::Path,
+};
 
 pub mod args;
 pub mod logger;
@@ -43,7 +47,7 @@ pub fn run(cli: Cli) -> Result<()> {
 				args::OutputFileFormat::Html => HTML_FILE_ENDING,
 				args::OutputFileFormat::Pdf => PDF_FILE_ENDING,
 			});
-			if out_path == args.input {
+			if out_path == args.input || is_same_file(&out_path, &args.input)? {
 				return Err(Error::CustomError(format!(
 					"The output would overwrite the input `{}`",
 					args.input.display()
@@ -70,3 +74,26 @@ pub fn run(cli: Cli) -> Result<()> {
 	}
 	Ok(())
 }
+
+/// Whether an existing file at `output` is the file at `input` under another
+/// name, e.g. through a symbolic or hard link.
+fn is_same_file(output: &Path, input: &Path) -> Result<bool> {
+	let existing = match std::fs::metadata(output) {
+		Err(e) if e.kind() == ErrorKind::NotFound => return Ok(false),
+		result => result?,
+	};
+	let source = std::fs::metadata(input)?;
+
+	#[cfg(unix)]
+	{
+		use std::os::unix::fs::MetadataExt;
+
+		Ok(existing.dev() == source.dev() && existing.ino() == source.ino())
+	}
+	#[cfg(not(unix))]
+	{
+		let _ = (existing, source);
+
+		Ok(output.canonicalize()? == input.canonicalize()?)
+	}
+}
-- 
2.43.0


//! The reference model of decomposition, classification and lexing.

use std::collections::HashMap;

use sneturfahi::lex::Selmaho;

use crate::morph::{Morph, Peg};
use crate::selmaho_table::TABLE;

/// Index of a word class in models/selmaho.tsv.
pub type Sel = u8;

pub struct Names {
	pub variant: Vec<&'static str>,
	pub repr: Vec<&'static str>,
	pub fundamental: Vec<bool>,
	pub by_variant: HashMap<&'static str, Sel>,
	pub by_repr: HashMap<&'static str, Sel>,
	of_impl: Vec<Sel>,
	pub common: Common,
}

macro_rules! common {
	($($field:ident = $name:literal),* $(,)?) => {
		#[derive(Debug, Clone, Copy)]
		#[allow(non_snake_case, dead_code)]
		pub struct Common { $(pub $field: Sel,)* }
		impl Common {
			fn load(by_variant: &HashMap<&'static str, Sel>) -> Self {
				Self { $($field: by_variant[$name],)* }
			}
		}
	};
}
common! {
	zoi = "Zoi", muhoi = "Muhoi", sohehai = "Sohehai", mehoi = "Mehoi", zohoi = "Zohoi", dohoi = "Dohoi",
	faho = "Faho", fahoho = "Fahoho", any_text = "AnyText", zoi_delimiter = "ZoiDelimiter",
	unknown_cmavo = "UnknownCmavo", cmevla = "Cmevla", gismu = "Gismu", lujvo = "Lujvo", fuhivla = "Fuhivla",
	y = "Y", bu = "Bu", zei = "Zei", lehu = "Lehu", bahe = "Bahe", ui = "Ui",
}

impl Names {
	pub fn load() -> Self {
		let mut names = Self {
			variant: vec![],
			repr: vec![],
			fundamental: vec![],
			by_variant: HashMap::new(),
			by_repr: HashMap::new(),
			of_impl: vec![u8::MAX; 512],
			common: unsafe_zero(),
		};
		for (i, line) in include_str!("../models/selmaho.tsv").lines().enumerate() {
			let mut parts = line.split('\t');
			let variant = parts.next().unwrap();
			let repr = parts.next().unwrap();
			names.variant.push(variant);
			names.repr.push(repr);
			names.fundamental.push(parts.next().unwrap() == "1");
			assert!(names.by_variant.insert(variant, i as Sel).is_none());
			assert!(names.by_repr.insert(repr, i as Sel).is_none());
			names.of_impl[TABLE[i] as usize] = i as Sel;
		}
		assert_eq!(names.variant.len(), TABLE.len());
		names.common = Common::load(&names.by_variant);
		names
	}

	pub fn of(&self, sel: Selmaho) -> Sel {
		self.of_impl[sel as usize]
	}

	pub fn imp(&self, sel: Sel) -> Selmaho {
		TABLE[sel as usize]
	}
}

fn unsafe_zero() -> Common {
	let mut map = HashMap::new();
	for name in [
		"Zoi", "Muhoi", "Sohehai", "Mehoi", "Zohoi", "Dohoi", "Faho", "Fahoho", "AnyText", "ZoiDelimiter",
		"UnknownCmavo", "Cmevla", "Gismu", "Lujvo", "Fuhivla", "Y", "Bu", "Zei", "Lehu", "Bahe", "Ui",
	] {
		map.insert(name, 0);
	}
	Common::load(&map)
}

#[derive(Debug)]
pub struct Dict {
	pub words: HashMap<&'static str, (Sel, bool)>,
	pub list: Vec<&'static str>,
}

impl Dict {
	pub fn load(names: &Names) -> Self {
		let mut words = HashMap::new();
		let mut list = Vec::new();
		for line in include_str!("../models/dict.tsv").lines() {
			let mut parts = line.split('\t');
			let word = parts.next().unwrap();
			let sel = names.by_repr[parts.next().unwrap()];
			let experimental = parts.next().unwrap() == "1" || names.fundamental[sel as usize];
			assert!(words.insert(word, (sel, experimental)).is_none());
			list.push(word);
		}
		Self { words, list }
	}
}

#[derive(Debug, Clone, Copy)]
struct RuleIds {
	nucleus: u16,
	gismu: u16,
	fuhivla: u16,
	lujvo: u16,
	cmavo_word: u16,
	x_brivla: u16,
	cmevla: u16,
}

pub fn is_separator(ch: char) -> bool {
	matches!(ch, '.' | '\t' | '\n' | '\r' | '?' | '!' | ' ')
}

pub fn is_consonant(ch: char) -> bool {
	matches!(
		ch.to_ascii_lowercase(),
		'b' | 'c' | 'd' | 'f' | 'g' | 'j' | 'k' | 'l' | 'm' | 'n' | 'p' | 'r' | 's' | 't' | 'v' | 'x' | 'z'
	)
}

pub type Sp = (u32, u32);

pub struct Model<'m> {
	pub names: &'m Names,
	pub dict: &'m Dict,
	pub morph: Morph<'m>,
	ids: RuleIds,
	ends: Vec<u32>,
	key: String,
	pub words: u64,
}

impl<'m> Model<'m> {
	pub fn new(names: &'m Names, dict: &'m Dict, peg: &'m Peg) -> Self {
		Self {
			names,
			dict,
			morph: Morph::new(peg),
			ids: RuleIds {
				nucleus: peg.rule("nucleus"),
				gismu: peg.rule("gismu"),
				fuhivla: peg.rule("fuhivla"),
				lujvo: peg.rule("lujvo"),
				cmavo_word: peg.rule("cmavo_word"),
				x_brivla: peg.rule("x_brivla"),
				cmevla: peg.rule("cmevla"),
			},
			ends: Vec::new(),
			key: String::new(),
			words: 0,
		}
	}

	/// The words of one chunk (a maximal run of non-separators with at least one non-comma), as byte ranges.
	pub fn chunk_words(&mut self, chunk: &str, out: &mut Vec<Sp>) {
		out.clear();
		let chunk = chunk.trim_end_matches(',');
		let last = chunk.chars().next_back().expect("a chunk without letters");
		if is_consonant(last) {
			out.push((0, chunk.len() as u32));
			self.words += 1;
			return;
		}
		self.ends.clear();
		for (i, ch) in chunk.char_indices() {
			if ch != ',' {
				self.ends.push((i + ch.len_utf8()) as u32);
			}
		}
		self.morph.load(chunk.chars().filter(|&ch| ch != ','));
		let n = self.morph.len();
		let mut bounds = vec![0]; // confirmed word boundaries
		let mut pos = 0; // everything before this has fallen off
		let mut saved = None;
		while let Some(end) = self
			.morph
			.at(self.ids.cmavo_word, pos)
			.or_else(|| self.morph.at(self.ids.x_brivla, pos))
		{
			if saved.replace(pos).is_some() {
				// another word falling off confirms the previous one
				bounds.push(pos);
			}
			pos = end;
		}
		if saved.is_some() && self.word_follows(pos) {
			bounds.push(pos);
		}
		bounds.push(n);
		bounds.dedup();
		for pair in bounds.windows(2) {
			let byte = |at: usize, ends: &[u32]| if at == 0 { 0 } else { ends[at - 1] };
			out.push((byte(pair[0], &self.ends), byte(pair[1], &self.ends)));
			self.words += 1;
		}
	}

	fn word_follows(&mut self, pos: usize) -> bool {
		let RuleIds {
			nucleus,
			gismu,
			fuhivla,
			lujvo,
			cmavo_word,
			..
		} = self.ids;
		self.morph.at(nucleus, pos).is_none()
			&& [gismu, fuhivla, lujvo, cmavo_word]
				.into_iter()
				.any(|rule| self.morph.at(rule, pos).is_some())
	}

	/// The class of a word, and whether the word is experimental.
	pub fn classify(&mut self, word: &str) -> (Sel, bool) {
		self.words += 1;
		self.key.clear();
		self
			.key
			.extend(word.chars().filter(|&ch| ch != ',').map(|ch| if ch == 'h' { '\'' } else { ch }));
		let common = self.names.common;
		if let Some(&found) = self.dict.words.get(self.key.as_str()) {
			return found;
		}
		if !self.key.is_empty() && self.key.bytes().all(|b| b == b'y') {
			return (common.y, self.names.fundamental[common.y as usize]);
		}
		self.morph.load(word.chars().filter(|&ch| ch != ','));
		let n = self.morph.len();
		let ids = self.ids;
		for (rule, sel) in [
			(ids.cmevla, common.cmevla),
			(ids.cmavo_word, common.unknown_cmavo),
			(ids.gismu, common.gismu),
			(ids.fuhivla, common.fuhivla),
			(ids.lujvo, common.lujvo),
		] {
			if self.morph.at(rule, 0) == Some(n) {
				return (sel, self.names.fundamental[sel as usize]);
			}
		}
		(common.any_text, self.names.fundamental[common.any_text as usize])
	}

	pub fn decompose(&mut self, text: &str) -> Vec<Sp> {
		let mut cursor = Cursor::new(text);
		std::iter::from_fn(|| cursor.next(self)).collect()
	}

	pub fn lex(&mut self, text: &str) -> Vec<Item> {
		let mut lexer = LexModel::new(text);
		let mut out = Vec::new();
		while let Some(item) = lexer.next(self) {
			out.push(item);
		}
		out
	}
}

/// The position of the reference decomposer within a text.
#[derive(Debug, Clone)]
pub struct Cursor<'t> {
	text: &'t str,
	chunks: Vec<Sp>,
	next_chunk: usize,
	pending: Vec<Sp>, // in reverse order
	scratch: Vec<Sp>,
}

impl<'t> Cursor<'t> {
	pub fn new(text: &'t str) -> Self {
		let mut chunks = Vec::new();
		let mut start = 0;
		for (i, ch) in text.char_indices() {
			if is_separator(ch) {
				chunks.push((start, i as u32));
				start = (i + 1) as u32;
			}
		}
		chunks.push((start, text.len() as u32));
		Self {
			text,
			chunks,
			next_chunk: 0,
			pending: vec![],
			scratch: vec![],
		}
	}

	pub fn next(&mut self, model: &mut Model<'_>) -> Option<Sp> {
		loop {
			if let Some(word) = self.pending.pop() {
				return Some(word);
			}
			let &(start, end) = self.chunks.get(self.next_chunk)?;
			self.next_chunk += 1;
			let chunk = &self.text[start as usize..end as usize];
			if chunk.bytes().all(|b| b == b',') {
				continue;
			}
			model.chunk_words(chunk, &mut self.scratch);
			self.pending.clear();
			self
				.pending
				.extend(self.scratch.iter().rev().map(|&(s, e)| (s + start, e + start)));
		}
	}

	pub fn next_raw(&mut self) -> Option<Sp> {
		if let Some((start, _)) = self.pending.pop() {
			self.pending.clear();
			Some((start, self.chunks[self.next_chunk - 1].1))
		} else {
			let &chunk = self.chunks.get(self.next_chunk)?;
			self.next_chunk += 1;
			Some(chunk)
		}
	}

	/// How many words are already determined (a valid lower bound of what is left).
	pub fn pending(&self) -> usize {
		self.pending.len()
	}
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Item {
	Token { sel: Sel, experimental: bool, span: Sp },
	MissingSeparator { initiator: Sp },
	Unclosed { initiator: Sp, delimiter: Sp },
	PauseEof { initiator: Sp },
}

impl Item {
	pub fn span(&self) -> Option<Sp> {
		match *self {
			Self::Token { span, .. } => Some(span),
			_ => None,
		}
	}
}

/// The reference lexer: a queue of tokens that are already determined, filled one word or quote at a time.
pub struct LexModel<'t> {
	cursor: Cursor<'t>,
	text: &'t str,
	queue: std::collections::VecDeque<Item>,
	done: bool,
}

impl<'t> LexModel<'t> {
	pub fn new(text: &'t str) -> Self {
		Self {
			cursor: Cursor::new(text),
			text,
			queue: Default::default(),
			done: false,
		}
	}

	pub fn next(&mut self, model: &mut Model<'_>) -> Option<Item> {
		if self.queue.is_empty() && !self.done {
			self.fill(model);
		}
		self.queue.pop_front()
	}

	fn fill(&mut self, model: &mut Model<'_>) {
		let Some(span) = self.cursor.next(model) else {
			self.done = true;
			return;
		};
		let word = &self.text[span.0 as usize..span.1 as usize];
		let (sel, experimental) = model.classify(word);
		let common = model.names.common;
		let token = Item::Token { sel, experimental, span };
		if sel == common.zoi || sel == common.muhoi {
			self.quotes(1, token, model);
		} else if sel == common.sohehai {
			self.quotes(2, token, model);
		} else {
			self.queue.push_back(token);
			if sel == common.mehoi || sel == common.zohoi || sel == common.dohoi {
				match self.cursor.next_raw() {
					Some(span) => self.queue.push_back(Item::Token {
						sel: common.any_text,
						experimental: false,
						span,
					}),
					None => {
						self.queue.push_back(Item::PauseEof { initiator: span });
						self.done = true;
					}
				}
			} else if sel == common.faho || sel == common.fahoho {
				self.done = true;
			}
		}
	}

	fn quotes(&mut self, count: usize, initiator_token: Item, model: &mut Model<'_>) {
		let common = model.names.common;
		let initiator = initiator_token.span().unwrap();
		let Some(mut delimiter) = self.cursor.next(model) else {
			self.queue.push_back(Item::MissingSeparator { initiator });
			self.done = true;
			return;
		};
		self.queue.push_back(initiator_token);
		let text = self.text;
		let letters = |span: Sp| text[span.0 as usize..span.1 as usize].chars().filter(|&ch| ch != ',');
		let delimiter_token = |span| Item::Token {
			sel: common.zoi_delimiter,
			experimental: false,
			span,
		};
		for i in 0..count {
			let mut quoted: Option<Sp> = None;
			let end = loop {
				let Some(part) = self.cursor.next_raw() else {
					self.queue.push_back(Item::Unclosed { initiator, delimiter });
					self.done = true;
					return;
				};
				if letters(part).eq(letters(delimiter)) {
					break part;
				}
				quoted = Some((quoted.map_or(part.0, |q| q.0), part.1));
			};
			if i == 0 {
				self.queue.push_back(delimiter_token(delimiter));
			}
			if let Some(span) = quoted {
				self.queue.push_back(Item::Token {
					sel: common.any_text,
					experimental: false,
					span,
				});
			}
			self.queue.push_back(delimiter_token(end));
			delimiter = end;
		}
	}
}

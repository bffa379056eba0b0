//! The checks: what is compared on every explored input.

use std::collections::HashMap;
use std::sync::Mutex;

use sneturfahi::lex::{Selmaho, Token};
use sneturfahi::parse::Arena;

use crate::case::Case;
use crate::engine::{hash, Engine};
use crate::grammar::{ErrorKind, Failure, Grammar, Interp, Out};
use crate::imp;
use crate::morph::Peg;
use crate::text::{is_separator, Cursor, Dict, Item, Model, Names, Sel, Sp};

pub type Check = fn(&Case, &mut Scratch<'_>) -> Result<u64, String>;

pub struct Prop {
	pub id: &'static str,
	pub check: Check,
	pub run: fn(&Engine<'_>),
	/// Whether the check takes several times as long as a single call of the library.
	pub heavy: bool,
}

impl Prop {
	/// Title, bounds, and what is trusted: columns of the list of properties.
	pub fn about(&self) -> [&'static str; 3] {
		include_str!("../models/properties.tsv")
			.lines()
			.find_map(|line| {
				let mut columns = line.split('\t');
				(columns.next() == Some(self.id)).then(|| [(); 3].map(|()| columns.next().unwrap()))
			})
			.unwrap_or([""; 3])
	}
}

pub struct Models {
	pub names: Names,
	pub dict: Dict,
	pub peg: Peg,
	pub grammar: Grammar,
	/// Which name the library uses for a construct of the reference grammar, as seen so far, and the reverse.
	pub learned: Mutex<(HashMap<u16, &'static str>, HashMap<&'static str, u16>)>,
}

impl Models {
	pub fn load() -> Self {
		let names = Names::load();
		let dict = Dict::load(&names);
		let peg = Peg::load(include_str!("../models/morphology.peg"));
		let grammar = Grammar::load(include_str!("../models/grammar.txt"), &names);
		Self {
			names,
			dict,
			peg,
			grammar,
			learned: Mutex::default(),
		}
	}
}

pub struct Scratch<'s> {
	pub models: &'s Models,
	pub text: Model<'s>,
	pub interp: Interp<'s>,
	pub tokens: Vec<Token>,
	pub out: Vec<Out>,
	pub nodes: Vec<imp::Node>,
	pub ranges: (Vec<Sp>, Vec<Sp>),
	pub known: HashMap<u16, &'static str>,
	extra: u64,
}

impl<'s> Scratch<'s> {
	pub fn new(models: &'s Models) -> Self {
		Self {
			models,
			text: Model::new(&models.names, &models.dict, &models.peg),
			interp: Interp::new(&models.grammar),
			tokens: vec![],
			out: vec![],
			nodes: vec![],
			ranges: (vec![], vec![]),
			known: HashMap::new(),
			extra: 0,
		}
	}

	pub fn take_steps(&mut self) -> u64 {
		let steps = self.text.morph.steps + self.text.words + self.interp.steps + self.extra;
		self.text.morph.steps = 0;
		self.text.words = 0;
		self.interp.steps = 0;
		self.extra = 0;
		steps
	}

	pub fn steps(&mut self, n: usize) {
		self.extra += n as u64;
	}
}

pub fn slice(text: &str, span: Sp) -> Result<&str, String> {
	text
		.get(span.0 as usize..span.1 as usize)
		.ok_or_else(|| format!("{span:?} is not a region of the text"))
}

fn words_of(text: &str, spans: &[Sp]) -> String {
	let words: Vec<_> = spans
		.iter()
		.map(|&(start, end)| text.get(start as usize..end as usize).unwrap_or("<bad>"))
		.collect();
	format!("{words:?}")
}

// ---------------------------------------------------------------- text

/// C01: everything terminates normally.
pub fn totality(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let names = &s.models.names;
	match case {
		Case::Text(text) => {
			let spans = imp::decompose(text)?;
			let raw: Vec<Sp> = imp::guard(|| {
				let mut decomposer = sneturfahi::decompose(text);
				std::iter::from_fn(|| decomposer.next_no_decomposition()).map(imp::sp).collect()
			})?;
			s.steps(spans.len() + raw.len());
			for &span in &spans {
				let word = slice(text, span)?;
				imp::classify(names, word)?;
			}
			if text.len() <= 4 {
				// words that no text consists of are classified as well
				imp::classify(names, text)?;
			}
			let items = imp::lex(names, text)?;
			let tokens: Result<Vec<Token>, _> = imp::guard(|| sneturfahi::lex(text).collect())?;
			s.steps(items.len());
			let parsed = match tokens {
				Ok(tokens) => {
					let arena = Arena::new();
					imp::parse(names, &tokens, &arena, &mut s.nodes)?.is_ok()
				}
				Err(_) => false,
			};
			Ok(hash(&(spans.len(), raw.len(), items.len(), parsed)))
		}
		Case::Tokens(tokens) => {
			imp::tokens(names, tokens, &mut s.tokens);
			let arena = Arena::new();
			s.steps(tokens.len());
			let parsed = imp::parse(names, &s.tokens, &arena, &mut s.nodes)?;
			imp::guard(|| arena.allocated_bytes())?;
			Ok(hash(&(parsed.is_ok(), s.nodes.len())))
		}
		_ => unreachable!(),
	}
}

/// C02: the words tile the letters of the text.
pub fn tiling(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Text(text) = case else { unreachable!() };
	let spans = imp::decompose(text)?;
	s.steps(spans.len());
	let mut covered = vec![0u8; text.len()];
	let mut last = 0;
	for &span in &spans {
		let word = slice(text, span)?;
		if word.is_empty() {
			return Err(format!("empty word at {}", span.0));
		}
		if span.0 < last {
			return Err(format!("{span:?} begins before the end of the word before it"));
		}
		last = span.1;
		if word.chars().any(is_separator) {
			return Err(format!("the word {word:?} contains a separator"));
		}
		if word.chars().all(|ch| ch == ',') {
			return Err(format!("the word {word:?} has no letters"));
		}
		for i in span.0..span.1 {
			covered[i as usize] += 1;
		}
	}
	for (i, ch) in text.char_indices() {
		if !is_separator(ch) && ch != ',' && covered[i] != 1 {
			return Err(format!("{ch:?} at {i} belongs to no word of {}", words_of(text, &spans)));
		}
	}
	Ok(hash(&spans))
}

/// The same text with every separator replaced by `sep`.
fn with_separators(text: &str, sep: char) -> String {
	text.chars().map(|ch| if is_separator(ch) { sep } else { ch }).collect()
}

pub const SEPARATORS: [char; 7] = ['.', '\t', '\n', '\r', '?', '!', ' '];

/// C03: separators are interchangeable, and words do not depend on other chunks.
pub fn separators(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Text(text) = case else { unreachable!() };
	let spans = imp::decompose(text)?;
	let mut pieces = vec![];
	let mut start = 0;
	for chunk in text.split(is_separator) {
		for (a, b) in imp::decompose(chunk)? {
			pieces.push((a + start, b + start));
		}
		start += chunk.len() as u32 + 1;
	}
	s.steps(spans.len() + pieces.len());
	// only separators (and commas at the end of a part) are left out
	let mut covered = vec![false; text.len()];
	for &(a, b) in &spans {
		if let Some(part) = covered.get_mut(a as usize..b as usize) {
			part.fill(true);
		}
	}
	for (i, ch) in text.char_indices() {
		if !is_separator(ch) && ch != ',' && !covered[i] {
			return Err(format!("the words are {} and {ch:?} is in none of them although it is no separator", words_of(text, &spans)));
		}
	}
	if pieces != spans {
		return Err(format!(
			"the words are {} but the words of its chunks on their own are {}",
			words_of(text, &spans),
			words_of(text, &pieces)
		));
	}
	if text.contains(is_separator) {
		for sep in SEPARATORS {
			let other = with_separators(text, sep);
			let found = imp::decompose(&other)?;
			s.steps(found.len());
			if found != spans {
				return Err(format!(
					"the words are {} but with {sep:?} as the separator they are {}",
					words_of(text, &spans),
					words_of(&other, &found)
				));
			}
		}
		// adding more separators moves the words, and changes nothing else
		let mut doubled = String::from(". ");
		for ch in text.chars() {
			doubled.push(ch);
			if is_separator(ch) {
				doubled.push('\n');
			}
		}
		let found = imp::decompose(&doubled)?;
		let (a, b): (Vec<_>, Vec<_>) = (
			spans.iter().map(|&span| slice(text, span)).collect(),
			found.iter().map(|&span| slice(&doubled, span)).collect(),
		);
		if a != b {
			return Err(format!("the words are {a:?} but with repeated separators they are {b:?}"));
		}
	}
	Ok(hash(&spans))
}

fn plain(word: &str) -> String {
	word.chars().filter(|&ch| ch != ',').collect()
}

/// C04: commas and the spelling of the apostrophe do not matter.
pub fn commas(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Text(text) = case else { unreachable!() };
	let names = &s.models.names;
	let describe = |text: &str| -> Result<Vec<(String, (Sel, bool))>, String> {
		imp::decompose(text)?
			.into_iter()
			.map(|span| {
				let word = slice(text, span)?;
				Ok((plain(word).replace('h', "'"), imp::classify(names, word)?))
			})
			.collect()
	};
	let original = describe(text)?;
	s.steps(original.len());
	let without: String = plain(text);
	let variants = [
		without.clone(),
		without.replace('\'', "h"),
		text.replace('h', "'"),
		text.replace('\'', "h"),
	];
	for variant in &variants {
		if variant == text {
			continue;
		}
		let found = describe(variant)?;
		s.steps(found.len());
		if found != original {
			return Err(format!(
				"{text:?} consists of {} but {variant:?} of {}",
				show_words(names, &original),
				show_words(names, &found)
			));
		}
	}
	Ok(hash(&original))
}

fn show_words(names: &Names, words: &[(String, (Sel, bool))]) -> String {
	let words: Vec<_> = words
		.iter()
		.map(|(word, (sel, experimental))| {
			format!(
				"{word}:{}{}",
				names.repr[*sel as usize],
				if *experimental { "*" } else { "" }
			)
		})
		.collect();
	format!("[{}]", words.join(" "))
}

/// C05: word boundaries follow the morphology.
pub fn boundaries(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Text(text) = case else { unreachable!() };
	let expected = s.text.decompose(text);
	let found = imp::decompose(text)?;
	if found != expected {
		return Err(format!(
			"the words are {} at {found:?}, by the morphology they are {} at {expected:?}",
			words_of(text, &found),
			words_of(text, &expected)
		));
	}
	Ok(hash(&expected))
}

fn same_class(names: &Names, word: &str, found: (Sel, bool), expected: (Sel, bool)) -> Result<(), String> {
	if found == expected {
		return Ok(());
	}
	let show = |(sel, experimental): (Sel, bool)| {
		format!(
			"{}{}",
			names.repr[sel as usize],
			if experimental { " (experimental)" } else { "" }
		)
	};
	Err(format!("{word:?} is classified as {}, it is {}", show(found), show(expected)))
}

/// C06 and C07: the class of every word of a text, or of a single word.
pub fn classes(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let names = &s.models.names;
	match case {
		Case::Text(text) => {
			let mut outcome = 0u64;
			for span in s.text.decompose(text) {
				let word = &text[span.0 as usize..span.1 as usize];
				let expected = s.text.classify(word);
				same_class(names, word, imp::classify(names, word)?, expected)?;
				outcome = hash(&(outcome, expected));
			}
			Ok(outcome)
		}
		Case::Word(word) => {
			let expected = s.text.classify(word);
			same_class(names, word, imp::classify(names, word)?, expected)?;
			Ok(hash(&expected))
		}
		_ => unreachable!(),
	}
}

/// C07, also through the lexer: a listed word on its own is one token of its class.
pub fn listed(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let outcome = classes(case, s)?;
	if let Case::Word(word) = case {
		let names = &s.models.names;
		let expected = s.text.lex(word);
		let found = imp::lex(names, word)?;
		if found != expected {
			return Err(format!(
				"lexing {word:?} gives {}, expected {}",
				show_items(names, word, &found),
				show_items(names, word, &expected)
			));
		}
	}
	Ok(outcome)
}

pub const OP_NEXT: u8 = 0;
pub const OP_RAW: u8 = 1;
pub const OP_CLONE: u8 = 2;

/// C08: any history of decomposing and raw steps.
pub fn histories(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Ops(text, ops) = case else { unreachable!() };
	let mut model = Cursor::new(text);
	let mut decomposer = sneturfahi::decompose(text);
	let mut outcome = 0;
	for (i, &op) in ops.iter().enumerate() {
		s.steps(1);
		let (expected, found) = match op {
			OP_NEXT => (model.next(&mut s.text), imp::guard(|| decomposer.next())?),
			OP_RAW => (model.next_raw(), imp::guard(|| decomposer.next_no_decomposition())?),
			_ => unreachable!(),
		};
		let found = found.map(imp::sp);
		if found != expected {
			return Err(format!("call {i} returns {found:?}, expected {expected:?}"));
		}
		outcome = hash(&(outcome, found));
	}
	// whatever the history, the rest of the words follows
	let expected: Vec<Sp> = std::iter::from_fn(|| model.next(&mut s.text)).collect();
	let found: Vec<Sp> = imp::guard(|| decomposer.map(imp::sp).collect())?;
	if found != expected {
		return Err(format!(
			"after these calls the remaining words are {} at {found:?}, expected {} at {expected:?}",
			words_of(text, &found),
			words_of(text, &expected)
		));
	}
	Ok(hash(&(outcome, expected)))
}

/// C09: the iterators keep the contracts of iterators.
pub fn contracts(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Ops(text, ops) = case else { unreachable!() };
	let mut decomposer = sneturfahi::decompose(text);
	let step = |decomposer: &mut sneturfahi::decompose::Decomposer<'_>, op: u8| {
		imp::guard(|| {
			match op {
				OP_NEXT => decomposer.next(),
				_ => decomposer.next_no_decomposition(),
			}
			.map(imp::sp)
		})
	};
	let mut outcome = 0;
	for i in 0..=ops.len() {
		// in every state of the history: the size hint, a copy, and the adaptors agree with stepping
		let mut copy = decomposer.clone();
		let hint = imp::guard(|| copy.size_hint())?;
		let mut rest = vec![];
		while let Some(span) = step(&mut copy, OP_NEXT)? {
			rest.push(span);
			s.steps(1);
			if rest.len() > text.len() {
				return Err("more words than letters".to_owned());
			}
		}
		if rest.len() < hint.0 || hint.1.map_or(false, |upper| rest.len() > upper) {
			return Err(format!(
				"after {i} calls the size hint is {hint:?} but {} words follow",
				rest.len()
			));
		}
		for _ in 0..2 {
			if let Some(span) = step(&mut copy, OP_NEXT)? {
				return Err(format!("after the end, {span:?} is returned"));
			}
		}
		let end = imp::guard(|| copy.size_hint())?;
		if end.0 != 0 {
			return Err(format!("at the end the size hint is {end:?}"));
		}
		if i == ops.len() {
			let again: Vec<Sp> = imp::guard(|| decomposer.clone().map(imp::sp).collect())?;
			let folded = imp::guard(|| {
				decomposer.clone().fold(vec![], |mut all, span| {
					all.push(imp::sp(span));
					all
				})
			})?;
			let count = imp::guard(|| decomposer.clone().count())?;
			let last = imp::guard(|| decomposer.clone().last())?.map(imp::sp);
			let second = imp::guard(|| decomposer.clone().nth(1))?.map(imp::sp);
			if again != rest || folded != rest || count != rest.len() || last != rest.last().copied()
				|| second != rest.get(1).copied()
			{
				return Err(format!("after {i} calls, ways to read the rest disagree: {rest:?}, {again:?}"));
			}
		}
		outcome = hash(&(outcome, hint.0, rest.len()));
		if i < ops.len() {
			step(&mut decomposer, ops[i])?;
		}
	}
	// the lexer: nothing after the end, nothing after an error, and a truthful size hint
	let mut lexer = sneturfahi::lex(text);
	let mut hints = vec![];
	let mut count = 0;
	loop {
		hints.push(imp::guard(|| lexer.size_hint())?);
		match imp::guard(|| lexer.next())? {
			None => break,
			Some(Ok(_)) => count += 1,
			Some(Err(_)) => {
				count += 1;
				hints.push(imp::guard(|| lexer.size_hint())?);
				break;
			}
		}
		if count > 4 * text.len() + 16 {
			return Err("the lexer does not end".to_owned());
		}
	}
	for _ in 0..4 {
		if let Some(item) = imp::guard(|| lexer.next())? {
			return Err(format!("after the end, the lexer returns {item:?}"));
		}
	}
	for (i, hint) in hints.iter().enumerate() {
		let left = count - i.min(count);
		if left < hint.0 || hint.1.map_or(false, |upper| left > upper) {
			return Err(format!(
				"the size hint of the lexer is {hint:?} when {left} items follow"
			));
		}
	}
	Ok(hash(&(outcome, count)))
}

pub fn show_items(names: &Names, text: &str, items: &[Item]) -> String {
	let part = |span: Sp| text.get(span.0 as usize..span.1 as usize).unwrap_or("<bad>");
	let shown: Vec<String> = items
		.iter()
		.map(|item| match *item {
			Item::Token {
				sel,
				experimental,
				span,
			} => format!(
				"{}{}({:?} at {}..{})",
				names.repr[sel as usize],
				if experimental { "*" } else { "" },
				part(span),
				span.0,
				span.1
			),
			Item::MissingSeparator { initiator } => {
				format!("missing delimiter(initiator {:?} at {initiator:?})", part(initiator))
			}
			Item::Unclosed { initiator, delimiter } => format!(
				"unclosed(initiator {:?} at {initiator:?}, delimiter {:?} at {delimiter:?})",
				part(initiator),
				part(delimiter)
			),
			Item::PauseEof { initiator } => format!("nothing quoted(initiator {:?} at {initiator:?})", part(initiator)),
		})
		.collect();
	format!("[{}]", shown.join(", "))
}

/// C10, C11: the tokens of a text, one by one.
pub fn lexing(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Text(text) = case else { unreachable!() };
	let names = &s.models.names;
	let expected = s.text.lex(text);
	let found = imp::lex(names, text)?;
	if found != expected {
		return Err(format!(
			"lexing gives {}, expected {}",
			show_items(names, text, &found),
			show_items(names, text, &expected)
		));
	}
	Ok(hash(&expected))
}

/// C11: where lexing fails, and that nothing follows a failure or the end of the text.
pub fn endings(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Text(text) = case else { unreachable!() };
	let names = &s.models.names;
	let expected = s.text.lex(text);
	let mut lexer = sneturfahi::lex(text);
	let mut found = vec![];
	while let Some(result) = imp::guard(|| lexer.next())? {
		found.push(imp::item(names, result));
		if found.len() > 4 * text.len() + 16 {
			return Err("the lexer does not end".to_owned());
		}
	}
	for i in 0..3 {
		if let Some(result) = imp::guard(|| lexer.next())? {
			return Err(format!(
				"call {i} after the end gives {}",
				show_items(names, text, &[imp::item(names, result)])
			));
		}
	}
	let failure = |items: &[Item]| items.iter().position(|item| item.span().is_none());
	let (a, b) = (failure(&expected), failure(&found));
	let end = |items: &[Item], at: Option<usize>| (at.map(|at| items[at]), items.len());
	if end(&expected, a) != end(&found, b) || a != b {
		return Err(format!(
			"lexing ends as {}, expected {}",
			show_items(names, text, &found[found.len().saturating_sub(3)..]),
			show_items(names, text, &expected[expected.len().saturating_sub(3)..])
		));
	}
	Ok(hash(&end(&expected, a)))
}

/// C12: without foreign quotes, tokens are exactly the classified words; with them, tokens are still regions of the
/// text in order.
pub fn tokens_are_words(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Text(text) = case else { unreachable!() };
	let names = &s.models.names;
	let common = names.common;
	let words = imp::decompose(text)?;
	let items = imp::lex(names, text)?;
	s.steps(words.len() + items.len());
	let quoting = |sel: Sel| {
		[common.zoi, common.muhoi, common.sohehai, common.mehoi, common.zohoi, common.dohoi].contains(&sel)
	};
	let mut position = 0;
	for item in &items {
		if let Item::Token { span, .. } = *item {
			slice(text, span)?;
			if span.0 < position || span.1 < span.0 {
				return Err(format!(
					"tokens out of order: {}",
					show_items(names, text, &items)
				));
			}
			position = span.1;
		}
	}
	let mut rest = items.iter();
	for &span in &words {
		let word = slice(text, span)?;
		let (sel, experimental) = imp::classify(names, word)?;
		let expected = Item::Token {
			sel,
			experimental,
			span,
		};
		let found = rest.next();
		if quoting(sel) && matches!(found, Some(Item::MissingSeparator { .. } | Item::Unclosed { .. })) {
			return Ok(hash(&items));
		}
		if found != Some(&expected) {
			return Err(format!(
				"the tokens are {} but the word {word:?} is {}",
				show_items(names, text, &items),
				show_items(names, text, &[expected])
			));
		}
		if quoting(sel) {
			return Ok(hash(&items));
		}
		if sel == common.faho || sel == common.fahoho {
			break;
		}
	}
	if let Some(extra) = rest.next() {
		return Err(format!("{extra:?} follows the last word"));
	}
	Ok(hash(&items))
}

// ---------------------------------------------------------------- trees

/// Parse with both. The trees are left in the scratch space.
pub fn parse_both(
	tokens: &[Sel],
	s: &mut Scratch<'_>,
	arena: &Arena,
) -> Result<(Result<(), Failure>, imp::Parsed), String> {
	let expected = s.interp.parse(tokens, &mut s.out);
	imp::tokens(&s.models.names, tokens, &mut s.tokens);
	let found = imp::parse(&s.models.names, &s.tokens, arena, &mut s.nodes)?;
	Ok((expected, found))
}

fn agree(expected: &Result<(), Failure>, found: &imp::Parsed) -> Result<(), String> {
	match (expected, found) {
		(Ok(()), Err(error)) => Err(format!(
			"it is grammatical, but parsing fails with {} tokens remaining",
			error.remaining
		)),
		(Err(error), Ok(())) => Err(format!(
			"it is not grammatical (token {}), but it is parsed",
			error.at
		)),
		_ => Ok(()),
	}
}

/// C16: exactly the texts of the grammar are accepted.
pub fn acceptance(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Tokens(tokens) = case else { unreachable!() };
	let arena = Arena::new();
	let (expected, found) = parse_both(tokens, s, &arena)?;
	agree(&expected, &found)?;
	Ok(match expected {
		Ok(()) => 1,
		Err(error) => 2 + u64::from(error.at),
	})
}

fn show_ranges(models: &Models, tokens: &[Sel], ranges: &[Sp]) -> String {
	let ranges: Vec<String> = ranges
		.iter()
		.map(|&(a, b)| {
			format!(
				"({})",
				tokens[a as usize..b as usize]
					.iter()
					.map(|&sel| models.names.repr[sel as usize])
					.collect::<Vec<_>>()
					.join(" ")
			)
		})
		.collect();
	ranges.join(" ")
}

/// The index of the token that starts (ends) at a location, for spans made by `imp::tokens`.
fn token_range(node: &imp::Node, len: usize) -> Result<Option<Sp>, String> {
	match (node.start, node.end) {
		(None, None) => Ok(None),
		(Some(start), Some(end))
			if start % 3 == 1 && end % 3 == 0 && start < end && end as usize <= 3 * len =>
		{
			Ok(Some((start / 3, end / 3)))
		}
		other => Err(format!("node {:?} has the extent {other:?}", node.name)),
	}
}

/// C17 to C24: the same bracketing.
pub fn brackets(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Tokens(tokens) = case else { unreachable!() };
	let arena = Arena::new();
	let (expected, found) = parse_both(tokens, s, &arena)?;
	agree(&expected, &found)?;
	let Ok(()) = expected else {
		return Ok(u64::from(expected.unwrap_err().at));
	};
	let (model, library) = &mut s.ranges;
	model.clear();
	library.clear();
	model.extend(
		s.out
			.iter()
			.filter(|node| node.end > node.first)
			.map(|node| (u32::from(node.first), u32::from(node.end))),
	);
	for node in &s.nodes {
		if let Some(range) = token_range(node, tokens.len())? {
			library.push(range);
		}
	}
	for ranges in [&mut *model, &mut *library] {
		ranges.sort_unstable();
		ranges.dedup();
	}
	if model != library {
		let missing: Vec<Sp> = model.iter().filter(|range| !library.contains(range)).copied().collect();
		let extra: Vec<Sp> = library.iter().filter(|range| !model.contains(range)).copied().collect();
		return Err(format!(
			"these belong together but are not grouped: {}; these are grouped but do not belong together: {}",
			show_ranges(s.models, tokens, &missing),
			show_ranges(s.models, tokens, &extra)
		));
	}
	Ok(hash(&*model))
}

/// Whether a leaf of a tree may have this name. The parts of a foreign quote are called by their role.
fn leaf_name(names: &Names, sel: Sel, name: &str) -> bool {
	names.repr[sel as usize] == name
		|| sel == names.common.zoi_delimiter && name == "ZoiDelimiter"
		|| sel == names.common.any_text && name == "ZoiText"
}

/// C25: the same constructs, under consistent names.
pub fn constructs(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Tokens(tokens) = case else { unreachable!() };
	let arena = Arena::new();
	let (expected, found) = parse_both(tokens, s, &arena)?;
	agree(&expected, &found)?;
	let Ok(()) = expected else {
		return Ok(u64::from(expected.unwrap_err().at));
	};
	let grammar = &s.models.grammar;
	let mut outcome = 0u64;
	for (i, node) in s.out.iter().enumerate() {
		let label = match node.label {
			Some(label) => grammar.labels[label as usize].as_str(),
			None => s.models.names.repr[tokens[node.first as usize] as usize],
		};
		let Some(other) = s.nodes.get(i) else {
			return Err(format!("the tree has no node for {label}"));
		};
		let range = token_range(other, tokens.len())?.unwrap_or((0, 0));
		if other.depth != node.depth
			|| other.children != node.children
			|| range != (u32::from(node.first), u32::from(node.end))
		{
			return Err(format!(
				"node {i} is {:?} with {} children over tokens {range:?} at depth {}, expected {label} with {} children over tokens {:?} at depth {}",
				other.name, other.children, other.depth, node.children, (node.first, node.end), node.depth
			));
		}
		match node.label {
			None => {
				if !leaf_name(&s.models.names, tokens[node.first as usize], other.name) {
					return Err(format!("a {label} token is called {:?}", other.name));
				}
			}
			Some(id) => {
				if s.known.get(&id) != Some(&other.name) {
					let mut learned = s.models.learned.lock().unwrap();
					let name = *learned.0.entry(id).or_insert(other.name);
					let back = *learned.1.entry(other.name).or_insert(id);
					if name != other.name {
						return Err(format!(
							"the construct {label} is called {:?} here and {name:?} elsewhere",
							other.name
						));
					}
					if back != id {
						return Err(format!(
							"the constructs {label} and {} are both called {:?}",
							grammar.labels[back as usize], other.name
						));
					}
					s.known.insert(id, name);
				}
				outcome = outcome.rotate_left(5) ^ u64::from(id);
			}
		}
	}
	if s.nodes.len() > s.out.len() {
		return Err(format!("extra node {:?}", s.nodes[s.out.len()].name));
	}
	Ok(outcome)
}

/// Tokens with irregular spans; bit `i` of the mask marks experimental words.
fn marked_tokens(names: &Names, tokens: &[Sel], mask: u64, out: &mut Vec<Token>) {
	imp::tokens(names, tokens, out);
	for (i, token) in out.iter_mut().enumerate() {
		// the lexer never marks the parts of foreign quotes
		let sel = names.of(token.selmaho);
		let foreign = sel == names.common.zoi_delimiter || sel == names.common.any_text;
		token.experimental = !foreign && mask >> (i % 64) & 1 == 1;
	}
}

/// C14: the leaves are the tokens.
pub fn leaves(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let (tokens, mask) = match case {
		Case::Tokens(tokens) => (tokens, 0),
		Case::Marked(tokens, mask) => (tokens, *mask),
		_ => unreachable!(),
	};
	let names = &s.models.names;
	marked_tokens(names, tokens, mask, &mut s.tokens);
	s.steps(tokens.len());
	let arena = Arena::new();
	if imp::parse(names, &s.tokens, &arena, &mut s.nodes)?.is_err() {
		return Ok(0);
	}
	let mut next = s.tokens.iter();
	for node in &s.nodes {
		if node.children != 0 || node.start.is_none() && node.end.is_none() {
			continue;
		}
		let Some(token) = next.next() else {
			return Err(format!("the tree has an extra leaf {node:?}"));
		};
		if (node.start, node.end) != (Some(token.span.start), Some(token.span.end))
			|| !leaf_name(names, names.of(token.selmaho), node.name)
		{
			return Err(format!(
				"the leaf {} at {:?}..{:?} stands where the token {token:?} should be",
				node.name, node.start, node.end
			));
		}
		if node.experimental != token.experimental {
			return Err(format!("the leaf {node:?} differs from its token {token:?}"));
		}
	}
	if let Some(token) = next.next() {
		return Err(format!("the tree has no leaf for {token:?}"));
	}
	Ok(hash(&(tokens.len(), s.nodes.len())))
}

/// C15: extents and experimental marks of inner nodes follow from the leaves.
pub fn extents(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Marked(tokens, mask) = case else { unreachable!() };
	let names = &s.models.names;
	marked_tokens(names, tokens, *mask, &mut s.tokens);
	s.steps(tokens.len());
	let arena = Arena::new();
	if imp::parse(names, &s.tokens, &arena, &mut s.nodes)?.is_err() {
		return Ok(0);
	}
	let nodes = &s.nodes;
	for (i, node) in nodes.iter().enumerate() {
		if node.children == 0 {
			if node.start.is_some() != node.end.is_some() {
				return Err(format!("{node:?} has only one of a start and an end"));
			}
			if node.start.is_none() && node.experimental {
				return Err(format!("{node:?} is empty and experimental"));
			}
			if let Some(start) = node.start {
				let expected = s.tokens.iter().find(|token| token.span.start == start);
				if expected.map(|token| (Some(token.span.end), token.experimental))
					!= Some((node.end, node.experimental))
				{
					return Err(format!("the leaf {node:?} does not match {expected:?}"));
				}
			}
			continue;
		}
		let below = nodes[i + 1..].iter().take_while(|other| other.depth > node.depth);
		let leaves = below.filter(|other| other.children == 0 && other.start.is_some());
		let first = leaves.clone().next().and_then(|leaf| leaf.start);
		let last = leaves.clone().last().and_then(|leaf| leaf.end);
		let experimental = leaves.clone().any(|leaf| leaf.experimental);
		if (node.start, node.end) != (first, last) {
			return Err(format!(
				"node {} has the extent {:?}..{:?} but its leaves span {first:?}..{last:?}",
				node.name, node.start, node.end
			));
		}
		if node.experimental != experimental {
			return Err(format!(
				"node {} says experimental = {} but its leaves say {experimental}",
				node.name, node.experimental
			));
		}
	}
	Ok(hash(&(tokens.len(), nodes.len(), nodes.iter().filter(|node| node.experimental).count())))
}

/// The failures that can be merged: number `index` of them, over the tails of three tokens.
pub const FAILURES: u32 = 4 * 17;

fn failure(tokens: &[Token], index: u32) -> sneturfahi::parse::cst::error::WithLocation<'_> {
	use sneturfahi::parse::cst::Error;
	let location = &tokens[(index % 4) as usize..];
	let kind = index / 4;
	let got = if kind % 2 == 0 { location.first().copied() } else { None };
	let sels = [Selmaho::A, Selmaho::Ku, Selmaho::A, Selmaho::Bo];
	let error = match kind {
		0..=9 => {
			let sels = &sels[..(kind / 2) as usize];
			Error::ExpectedGot { expected: sels.to_vec().into(), got }
		}
		10 => Error::ExpectedGot { expected: (&[Selmaho::Ku] as &[Selmaho]).into(), got },
		11 => Error::ExpectedGot { expected: (&[Selmaho::Bo, Selmaho::Koha] as &[Selmaho]).into(), got },
		12 => Error::PostConditionFailed("postcondition"),
		13 => Error::Nom(nom::error::ErrorKind::Eof),
		14 => Error::Nom(nom::error::ErrorKind::Not),
		15 => Error::ZoQuoteEof,
		_ => Error::Empty("name"),
	};
	error.with_location(location)
}

/// Merging the failures of alternatives: the later token wins; at the same token, what is expected is united.
fn merging(a: u32, b: u32, s: &mut Scratch<'_>) -> Result<u64, String> {
	use nom::error::ParseError;
	use sneturfahi::parse::cst::Error;
	let mut tokens = vec![];
	imp::tokens(&s.models.names, &[1, 2, 3], &mut tokens);
	let set = |error: &Error| match error {
		Error::ExpectedGot { expected, got } => {
			let mut set: Vec<Sel> = expected.iter().map(|&sel| s.models.names.of(sel)).collect();
			set.sort_unstable();
			set.dedup();
			Some((set, *got))
		}
		_ => None,
	};
	let (left, right) = (failure(&tokens, a), failure(&tokens, b));
	let merged = imp::guard(|| failure(&tokens, a).or(failure(&tokens, b)))?;
	let show = format!("{left:?} and {right:?} merge to {merged:?}");
	// the error without the order and number of what it expects
	let plain = |error: &Error| set(error).map_or_else(|| format!("{error:?}"), |set| format!("{set:?}"));
	let at = merged.location.len();
	if merged.location.as_ptr() != tokens[3 - at.min(3)..].as_ptr() {
		return Err(format!("{show}, which is not at the tail of the tokens"));
	}
	let (l, r) = (left.location.len(), right.location.len());
	let good = match (l.cmp(&r), set(&left.error), set(&right.error)) {
		(std::cmp::Ordering::Less, ..) => at == l && plain(&merged.error) == plain(&left.error),
		(std::cmp::Ordering::Greater, ..) => at == r && plain(&merged.error) == plain(&right.error),
		(_, Some((mut united, got)), Some((other, got_o))) if got == got_o => {
			united.extend(other);
			united.sort_unstable();
			united.dedup();
			at == l && set(&merged.error) == Some((united, got))
		}
		_ => at == l && [&left, &right].iter().any(|one| plain(&one.error) == plain(&merged.error)),
	};
	if good { Ok(hash(&(at, plain(&merged.error)))) } else { Err(show) }
}

/// C26: errors point at the first token that cannot continue.
pub fn errors(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	if let Case::Numbers(pair) = case {
		return merging(pair[0], pair[1], s);
	}
	let Case::Tokens(tokens) = case else { unreachable!() };
	let arena = Arena::new();
	let (expected, found) = parse_both(tokens, s, &arena)?;
	agree(&expected, &found)?;
	let (Err(expected), Err(found)) = (expected, found) else {
		return Ok(0);
	};
	if !found.is_tail {
		return Err("the location of the error is not the tail of the tokens".to_owned());
	}
	let at = tokens.len() - found.remaining;
	if at != expected.at as usize {
		return Err(format!(
			"the error is located at token {at}, it is at token {}",
			expected.at
		));
	}
	if let Some(got) = found.got {
		if got != s.tokens.get(at).copied() {
			return Err(format!("the error at token {at} says that it got {got:?}"));
		}
	}
	let names = &s.models.names;
	let show = |set: &[Sel]| set.iter().map(|&sel| names.repr[sel as usize]).collect::<Vec<_>>().join(" ");
	match (expected.kind, found.expected) {
		(ErrorKind::Expected(set), Some(mut found)) => {
			found.sort_unstable();
			found.dedup();
			let mut members = crate::grammar::members(&set);
			members.sort_unstable();
			if found != members {
				return Err(format!(
					"the error at token {at} expects {}, acceptable there are {}",
					show(&found),
					show(&members)
				));
			}
		}
		(ErrorKind::Expected(set), None) => {
			return Err(format!(
				"the error at token {at} does not say what is expected ({})",
				show(&crate::grammar::members(&set))
			));
		}
		(ErrorKind::Other, Some(found)) => {
			return Err(format!("the error at token {at} expects {}", show(&found)));
		}
		(ErrorKind::Other, None) => {}
	}
	Ok(hash(&(tokens.len(), at)))
}

/// C27: parsing depends on the classes of the tokens and on nothing else.
pub fn determinism(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Batch(batch) = case else { unreachable!() };
	let names = &s.models.names;
	// all sequences are parsed with one arena, in order, and the first again at the end
	let shared = Arena::new();
	let mut outcome = 0;
	let order: Vec<usize> = (0..batch.len()).chain([0]).collect();
	let mut kept = vec![];
	let lists: Vec<Vec<Token>> = batch
		.iter()
		.map(|tokens| {
			let mut list = vec![];
			imp::tokens(names, tokens, &mut list);
			list
		})
		.collect();
	for &index in &order {
		let tokens = &batch[index];
		s.steps(tokens.len());
		let shape = |nodes: &[imp::Node]| -> Vec<(&'static str, u16, u16)> {
			nodes.iter().map(|node| (node.name, node.depth, node.children)).collect()
		};
		let alone = Arena::new();
		let expected = imp::parse(names, &lists[index], &alone, &mut s.nodes)?;
		let expected_nodes = std::mem::take(&mut s.nodes);
		let found = imp::guard(|| sneturfahi::Cst::parse(&lists[index], &shared).ok())?;
		match (&expected, &found) {
			(Ok(()), Some(cst)) => {
				imp::guard(|| imp::flatten(cst.root(), &mut s.nodes))?;
				if s.nodes != expected_nodes {
					return Err(format!("sequence {index} is parsed differently in an arena that was used before"));
				}
			}
			(Err(_), None) => {}
			_ => return Err(format!("whether sequence {index} is accepted depends on what was parsed before")),
		}
		// other places, lengths and experimental marks
		let mut place = 1000;
		let moved: Vec<Token> = lists[index]
			.iter()
			.enumerate()
			.map(|(i, token)| {
				let start = place;
				place += 1 + (i as u32 * 7) % 5;
				let end = place;
				place += (i as u32 * 3) % 2;
				Token {
					experimental: i % 2 == 0,
					selmaho: token.selmaho,
					span: sneturfahi::span::Span::new(start, end),
				}
			})
			.collect();
		let again = imp::parse(names, &moved, &shared, &mut s.nodes)?;
		if again.as_ref().err().map(|e| (e.remaining, &e.expected))
			!= expected.as_ref().err().map(|e| (e.remaining, &e.expected))
		{
			return Err(format!(
				"sequence {index} is accepted or rejected depending on the places of its tokens"
			));
		}
		if expected.is_ok() {
			if shape(&s.nodes) != shape(&expected_nodes) {
				return Err(format!("the tree of sequence {index} depends on the places of its tokens"));
			}
			kept.push((found, expected_nodes.clone()));
		}
		outcome = hash(&(outcome, expected.is_ok(), expected_nodes.len()));
	}
	// trees stay as they were while others are made in the same arena
	for (cst, nodes) in &kept {
		if let Some(cst) = cst {
			imp::guard(|| imp::flatten(cst.root(), &mut s.nodes))?;
			if &s.nodes != nodes {
				return Err("a tree changed when another text was parsed".to_owned());
			}
		}
	}
	Ok(outcome)
}

/// C13: names and marks of the word classes.
pub fn naming(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	let Case::Numbers(numbers) = case else { unreachable!() };
	let names = &s.models.names;
	let sel = numbers[0] as Sel;
	s.steps(1);
	let imp = names.imp(sel);
	let expected = names.repr[sel as usize];
	let found = imp::guard(|| imp.as_repr())?;
	if found != expected {
		return Err(format!("the class {expected} is written {found:?}"));
	}
	let whole = imp::guard(|| imp.is_fundamentally_experimental())?;
	if whole != names.fundamental[sel as usize] {
		return Err(format!("whether the class {expected} is experimental as a whole: {whole}"));
	}
	for (what, shown) in [
		("to_string", imp::guard(|| imp.to_string())?),
		("format", imp::guard(|| format!("{imp}"))?),
	] {
		if shown != expected {
			return Err(format!("{what} of the class {expected} gives {shown:?}"));
		}
	}
	// classes are different from each other, and so are their names
	for other in 0..names.repr.len() {
		let same = imp::guard(|| names.imp(other as Sel) == imp)?;
		if same != (other == sel as usize) {
			return Err(format!("{expected} and {} compare as equal = {same}", names.repr[other]));
		}
		if other != sel as usize && imp::guard(|| names.imp(other as Sel).as_repr())? == found {
			return Err(format!("{expected} and {} have the same name", names.repr[other]));
		}
	}
	// a token on its own shows the name of its class as a node
	let token = Token {
		experimental: numbers[1] == 1,
		selmaho: imp,
		span: sneturfahi::span::Span::new(2, 5),
	};
	use sneturfahi::parse::tree_node::TreeNode as _;
	let shown = imp::guard(|| (token.name(), token.experimental(), token.start_location(), token.end_location()))?;
	if shown != (expected, numbers[1] == 1, Some(2), Some(5)) {
		return Err(format!("a {expected} token appears as {shown:?}"));
	}
	Ok(hash(&found))
}

/// C28: regions of text.
pub fn spans(case: &Case, s: &mut Scratch<'_>) -> Result<u64, String> {
	use sneturfahi::span::Span;
	let Case::Numbers(numbers) = case else { unreachable!() };
	s.steps(1);
	static TEXT: &str = "abcdéfgh";
	let (a, b) = ((numbers[0], numbers[1]), (numbers[2], numbers[3]));
	let wrong = |what: &str, found: String, expected: String| -> Result<u64, String> {
		Err(format!("{what} of {a:?} and {b:?}: {found}, expected {expected}"))
	};
	let made = imp::guard(|| (Span::new(a.0, a.1), Span::new(b.0, b.1)))?;
	let (left, right) = made;
	macro_rules! same {
		($what:literal, $found:expr, $expected:expr) => {{
			let found = imp::guard(|| $found)?;
			let expected = $expected;
			if found != expected {
				return wrong($what, format!("{found:?}"), format!("{expected:?}"));
			}
		}};
	}
	let pa = a.0..a.1;
	same!("start and end", (left.start, left.end), a);
	same!("len", left.len() as usize, pa.len());
	same!("is_empty", left.is_empty(), pa.is_empty());
	same!("at", Span::at(a.0, a.1 - a.0) == left, true);
	same!("equality", left == right, a == b);
	same!("debug output", format!("{left:?}"), format!("{}..{}", a.0, a.1));
	for location in 0..=12 {
		same!("contains", left.contains(location), pa.contains(&location));
	}
	// a location or, for an empty region, a place strictly inside of the other
	let overlap = if a.0 < a.1 && b.0 < b.1 {
		(a.0.max(b.0)..a.1.min(b.1)).next().is_some()
	} else if a.0 == a.1 && b.0 < b.1 {
		b.0 < a.0 && a.0 < b.1
	} else if b.0 == b.1 && a.0 < a.1 {
		a.0 < b.0 && b.0 < a.1
	} else {
		false
	};
	same!("overlaps_with", left.overlaps_with(right), overlap);
	let between = (a.1 < b.0).then_some((a.1, b.0));
	same!("between", Span::between(left, right).map(imp::sp), between);
	let bytes = TEXT.as_bytes();
	let part = |start: u32, end: u32| -> Option<&[u8]> {
		let (start, end) = (start as usize, end as usize);
		if start > end || end > bytes.len() {
			return None;
		}
		let cut = |at: usize| at == bytes.len() || bytes[at] & 0xc0 != 0x80;
		(cut(start) && cut(end)).then(|| &bytes[start..end])
	};
	same!("slice", left.slice(TEXT).map(str::as_bytes), part(a.0, a.1));
	same!("slice_after", left.slice_after(TEXT).map(str::as_bytes), part(a.1, bytes.len() as u32));
	same!("slice_before", left.slice_before(TEXT).map(str::as_bytes), part(0, a.0));
	same!("entire_slice", imp::sp(Span::entire_slice(TEXT)), (0, bytes.len() as u32));
	if let Some(embedded) = TEXT.get(a.0 as usize..a.1 as usize) {
		same!(
			"from_embedded_slice",
			imp::sp(Span::from_embedded_slice(TEXT.as_ptr(), embedded)),
			a
		);
	}
	if a.0 < a.1 {
		// a region cannot end before it starts
		if imp::guard(|| Span::new(a.1, a.0)).is_ok() {
			return wrong("new with the end first", "a span".to_owned(), "a panic".to_owned());
		}
	}
	Ok(hash(&(overlap, between.is_some(), pa.len())))
}

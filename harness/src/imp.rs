//! Calls into the library under test. Panics become an `Err` with their message.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

use sneturfahi::lex::{Error as LexError, Token};
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::parse::Arena;
use sneturfahi::span::Span;

use crate::text::{Item, Names, Sel, Sp};

thread_local! {
	static MESSAGE: RefCell<String> = const { RefCell::new(String::new()) };
	static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_hook() {
	let default = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		if GUARDED.with(|guarded| guarded.get()) {
			MESSAGE.with(|message| *message.borrow_mut() = info.to_string().replace('\n', " "));
		} else {
			default(info);
		}
	}));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	let before = GUARDED.with(|guarded| guarded.replace(true));
	let result = catch_unwind(AssertUnwindSafe(f));
	GUARDED.with(|guarded| guarded.set(before));
	result.map_err(|_| MESSAGE.with(|message| format!("the library panicked: {}", message.borrow())))
}

pub fn sp(span: Span) -> Sp {
	(span.start, span.end)
}

pub fn decompose(text: &str) -> Result<Vec<Sp>, String> {
	guard(|| sneturfahi::decompose(text).map(sp).collect())
}

pub fn item(names: &Names, result: Result<Token, LexError>) -> Item {
	match result {
		Ok(token) => Item::Token {
			sel: names.of(token.selmaho),
			experimental: token.experimental,
			span: sp(token.span),
		},
		Err(LexError::DelimitedQuoteMissingSeparator { initiator_span }) => Item::MissingSeparator {
			initiator: sp(initiator_span),
		},
		Err(LexError::DelimitedQuoteUnclosed {
			initiator_span,
			starting_delimiter_span,
		}) => Item::Unclosed {
			initiator: sp(initiator_span),
			delimiter: sp(starting_delimiter_span),
		},
		Err(LexError::PauseDelimitedQuoteEof { initiator_span }) => Item::PauseEof {
			initiator: sp(initiator_span),
		},
	}
}

pub fn lex(names: &Names, text: &str) -> Result<Vec<Item>, String> {
	guard(|| {
		let limit = 4 * text.len() + 16;
		let mut out = Vec::new();
		for result in sneturfahi::lex(text) {
			out.push(item(names, result));
			assert!(out.len() < limit, "the lexer yields more than {limit} items");
		}
		out
	})
}

pub fn classify(names: &Names, word: &str) -> Result<(Sel, bool), String> {
	guard(|| {
		let (sel, experimental) = sneturfahi::lex::Selmaho::classify(word);
		(names.of(sel), experimental)
	})
}

/// A node of the tree of the library, in preorder.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Node {
	pub name: &'static str,
	pub start: Option<u32>,
	pub end: Option<u32>,
	pub experimental: bool,
	pub depth: u16,
	pub children: u16,
}

pub fn flatten(root: &dyn TreeNode, out: &mut Vec<Node>) {
	fn inner(node: &dyn TreeNode, depth: u16, out: &mut Vec<Node>) {
		let index = out.len();
		out.push(Node {
			name: node.name(),
			start: node.start_location(),
			end: node.end_location(),
			experimental: node.experimental(),
			depth,
			children: 0,
		});
		let mut children = 0;
		node.for_each_child(&mut |child| {
			children += 1;
			inner(child, depth + 1, out);
		});
		out[index].children = children;
	}
	out.clear();
	inner(root, 0, out);
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError {
	/// How many tokens remained at the location of the error, and whether they are the tail of the input.
	pub remaining: usize,
	pub is_tail: bool,
	pub expected: Option<Vec<Sel>>,
	/// `got` of the error: `None` if there is no such field.
	pub got: Option<Option<Token>>,
}

pub type Parsed = Result<(), ParseError>;

pub fn parse(names: &Names, tokens: &[Token], arena: &Arena, out: &mut Vec<Node>) -> Result<Parsed, String> {
	guard(|| match sneturfahi::Cst::parse(tokens, arena) {
		Ok(cst) => {
			flatten(cst.root(), out);
			Ok(())
		}
		Err(error) => {
			let remaining = error.location.len();
			let is_tail = remaining <= tokens.len()
				&& error.location.as_ptr() == tokens[tokens.len() - remaining..].as_ptr();
			let (expected, got) = match &error.error {
				sneturfahi::parse::cst::Error::ExpectedGot { expected, got } => (
					Some(expected.iter().map(|&sel| names.of(sel)).collect()),
					Some(*got),
				),
				_ => (None, None),
			};
			Err(ParseError {
				remaining,
				is_tail,
				expected,
				got,
			})
		}
	})
}

/// Tokens with distinct spans for a sequence of word classes: token `i` covers `3 i + 1 .. 3 i + 3`.
pub fn tokens(names: &Names, sels: &[Sel], out: &mut Vec<Token>) {
	out.clear();
	out.extend(sels.iter().enumerate().map(|(i, &sel)| Token {
		experimental: false,
		selmaho: names.imp(sel),
		span: Span::new(3 * i as u32 + 1, 3 * i as u32 + 3),
	}));
}

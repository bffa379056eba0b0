//! One element of an explored space, in a form that can be stored and replayed.

use crate::props::Models;
use crate::text::Sel;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Case {
	/// A text.
	Text(String),
	/// A word, to be classified on its own.
	Word(String),
	/// A text and a history of calls on it.
	Ops(String, Vec<u8>),
	/// A sequence of word classes.
	Tokens(Vec<Sel>),
	/// A sequence of word classes; which of them are experimental words.
	Marked(Vec<Sel>, u64),
	/// Numbers.
	Numbers(Vec<u32>),
	/// Several token sequences handled one after the other.
	Batch(Vec<Vec<Sel>>),
}

fn put(out: &mut Vec<u8>, bytes: &[u8]) {
	out.extend_from_slice(&(bytes.len() as u32).to_le_bytes());
	out.extend_from_slice(bytes);
}

fn get<'a>(bytes: &mut &'a [u8]) -> &'a [u8] {
	let (len, rest) = bytes.split_at(4);
	let len = u32::from_le_bytes(len.try_into().unwrap()) as usize;
	let (found, rest) = rest.split_at(len);
	*bytes = rest;
	found
}

impl Case {
	pub fn encode(&self, out: &mut Vec<u8>) {
		match self {
			Self::Text(text) => {
				out.push(0);
				out.extend_from_slice(text.as_bytes());
			}
			Self::Word(text) => {
				out.push(1);
				out.extend_from_slice(text.as_bytes());
			}
			Self::Ops(text, ops) => {
				out.push(2);
				put(out, text.as_bytes());
				out.extend_from_slice(ops);
			}
			Self::Tokens(tokens) => {
				out.push(3);
				out.extend_from_slice(tokens);
			}
			Self::Marked(tokens, mask) => {
				out.push(4);
				out.extend_from_slice(&mask.to_le_bytes());
				out.extend_from_slice(tokens);
			}
			Self::Numbers(numbers) => {
				out.push(5);
				for number in numbers {
					out.extend_from_slice(&number.to_le_bytes());
				}
			}
			Self::Batch(batch) => {
				out.push(6);
				for tokens in batch {
					put(out, tokens);
				}
			}
		}
	}

	pub fn decode(bytes: &[u8]) -> Self {
		let (&tag, mut rest) = bytes.split_first().unwrap();
		let text = |bytes: &[u8]| String::from_utf8_lossy(bytes).into_owned();
		match tag {
			0 => Self::Text(text(rest)),
			1 => Self::Word(text(rest)),
			2 => {
				let input = text(get(&mut rest));
				Self::Ops(input, rest.to_vec())
			}
			3 => Self::Tokens(rest.to_vec()),
			4 => Self::Marked(rest[8..].to_vec(), u64::from_le_bytes(rest[..8].try_into().unwrap())),
			5 => Self::Numbers(
				rest
					.chunks(4)
					.map(|chunk| u32::from_le_bytes(chunk.try_into().unwrap()))
					.collect(),
			),
			6 => {
				let mut batch = vec![];
				while !rest.is_empty() {
					batch.push(get(&mut rest).to_vec());
				}
				Self::Batch(batch)
			}
			_ => panic!("bad case"),
		}
	}

	pub fn size(&self) -> usize {
		match self {
			Self::Text(text) | Self::Word(text) => text.len(),
			Self::Ops(text, ops) => text.len() + ops.len(),
			Self::Tokens(tokens) | Self::Marked(tokens, _) => tokens.len(),
			Self::Numbers(numbers) => numbers.iter().map(|&n| n as usize).sum(),
			Self::Batch(batch) => batch.iter().map(|tokens| tokens.len() + 1).sum(),
		}
	}

	/// Cases with one part less.
	pub fn smaller(&self) -> Vec<Self> {
		fn without<T: Clone>(items: &[T]) -> Vec<Vec<T>> {
			(0..items.len())
				.map(|i| {
					let mut items = items.to_vec();
					items.remove(i);
					items
				})
				.collect()
		}
		fn texts(text: &str) -> Vec<String> {
			let chars: Vec<char> = text.chars().collect();
			without(&chars).into_iter().map(|chars| chars.into_iter().collect()).collect()
		}
		match self {
			Self::Text(text) => texts(text).into_iter().map(Self::Text).collect(),
			Self::Word(_) | Self::Numbers(_) | Self::Marked(..) => vec![],
			Self::Ops(text, ops) => without(ops)
				.into_iter()
				.map(|ops| Self::Ops(text.clone(), ops))
				.chain(texts(text).into_iter().map(|text| Self::Ops(text, ops.clone())))
				.collect(),
			Self::Tokens(tokens) => without(tokens).into_iter().map(Self::Tokens).collect(),
			Self::Batch(batch) => without(batch).into_iter().map(Self::Batch).collect(),
		}
	}

	pub fn show(&self, models: &Models) -> String {
		let sels = |tokens: &[Sel]| {
			tokens
				.iter()
				.map(|&sel| models.names.repr[sel as usize])
				.collect::<Vec<_>>()
				.join(" ")
		};
		let short = |text: &str| {
			if text.chars().count() > 200 {
				format!(
					"{:?}... ({} bytes)",
					text.chars().take(200).collect::<String>(),
					text.len()
				)
			} else {
				format!("{text:?}")
			}
		};
		match self {
			Self::Text(text) => format!("text {}", short(text)),
			Self::Word(word) => format!("word {}", short(word)),
			Self::Ops(text, ops) => format!("text {}, calls {ops:?}", short(text)),
			Self::Tokens(tokens) => format!("tokens [{}]", short(&sels(tokens)).trim_matches('"')),
			Self::Marked(tokens, mask) => format!("tokens [{}], experimental {mask:#b}", sels(tokens)),
			Self::Numbers(numbers) => format!("numbers {numbers:?}"),
			Self::Batch(batch) => format!(
				"token sequences [{}]",
				batch.iter().map(|tokens| sels(tokens)).collect::<Vec<_>>().join("] [")
			),
		}
	}
}

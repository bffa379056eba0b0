//! The reference morphology: an interpreter (with memoisation) for models/morphology.peg.

use std::collections::HashMap;

pub type NodeId = u16;

#[derive(Debug, Clone)]
enum Node {
	Class(u128),
	End,
	Rule(u16),
	Seq(Vec<NodeId>),
	Alt(Vec<NodeId>),
	Longest(Vec<NodeId>),
	Opt(NodeId),
	Star(NodeId),
	Many(NodeId, usize),
	And(NodeId),
	Not(NodeId),
}

#[derive(Debug)]
pub struct Peg {
	nodes: Vec<Node>,
	rules: Vec<NodeId>,
	pub names: HashMap<String, u16>,
}

struct Reader<'a> {
	src: &'a [u8],
	pos: usize,
	nodes: &'a mut Vec<Node>,
	names: &'a HashMap<String, u16>,
}

impl Reader<'_> {
	fn ws(&mut self) {
		while self.pos < self.src.len() && self.src[self.pos] == b' ' {
			self.pos += 1;
		}
	}
	fn peek(&mut self) -> u8 {
		self.ws();
		self.src.get(self.pos).copied().unwrap_or(0)
	}
	fn add(&mut self, node: Node) -> NodeId {
		self.nodes.push(node);
		(self.nodes.len() - 1) as NodeId
	}
	fn expr(&mut self) -> NodeId {
		let mut items = vec![self.seq()];
		let mut op = 0;
		while matches!(self.peek(), b'/' | b'|') {
			let this = self.peek();
			assert!(op == 0 || op == this, "mixed / and |");
			op = this;
			self.pos += 1;
			let item = self.seq();
			items.push(item);
		}
		match (items.len(), op) {
			(1, _) => items[0],
			(_, b'/') => self.add(Node::Alt(items)),
			_ => self.add(Node::Longest(items)),
		}
	}
	fn seq(&mut self) -> NodeId {
		let mut items = Vec::new();
		while !matches!(self.peek(), b'/' | b'|' | b')' | 0) {
			let item = self.item();
			items.push(item);
		}
		assert!(!items.is_empty());
		if items.len() == 1 {
			items[0]
		} else {
			self.add(Node::Seq(items))
		}
	}
	fn item(&mut self) -> NodeId {
		match self.peek() {
			b'&' => {
				self.pos += 1;
				let inner = self.item();
				return self.add(Node::And(inner));
			}
			b'!' => {
				self.pos += 1;
				let inner = self.item();
				return self.add(Node::Not(inner));
			}
			_ => {}
		}
		let atom = match self.peek() {
			b'(' => {
				self.pos += 1;
				let inner = self.expr();
				assert_eq!(self.peek(), b')');
				self.pos += 1;
				inner
			}
			b'[' => {
				let end = self.pos + self.src[self.pos..].iter().position(|&b| b == b']').unwrap();
				let mut mask = 0u128;
				for &b in &self.src[self.pos + 1..end] {
					mask |= 1 << b;
				}
				self.pos = end + 1;
				self.add(Node::Class(mask))
			}
			b'$' => {
				self.pos += 1;
				self.add(Node::End)
			}
			_ => {
				let start = self.pos;
				while self.pos < self.src.len()
					&& (self.src[self.pos].is_ascii_alphanumeric() || self.src[self.pos] == b'_')
				{
					self.pos += 1;
				}
				let name = std::str::from_utf8(&self.src[start..self.pos]).unwrap();
				let id = *self
					.names
					.get(name)
					.unwrap_or_else(|| panic!("unknown morphology rule {name:?}"));
				self.add(Node::Rule(id))
			}
		};
		match self.src.get(self.pos).copied().unwrap_or(0) {
			b'?' => {
				self.pos += 1;
				self.add(Node::Opt(atom))
			}
			b'*' => {
				self.pos += 1;
				self.add(Node::Star(atom))
			}
			b'+' => {
				self.pos += 1;
				self.add(Node::Many(atom, 1))
			}
			b'{' => {
				assert_eq!(&self.src[self.pos..self.pos + 3], b"{2}");
				self.pos += 3;
				self.add(Node::Many(atom, 2))
			}
			_ => atom,
		}
	}
}

impl Peg {
	pub fn load(text: &str) -> Self {
		let lines: Vec<(&str, &str)> = text
			.lines()
			.filter(|line| !line.trim().is_empty() && !line.starts_with('#'))
			.map(|line| {
				let (name, body) = line.split_once('=').unwrap();
				(name.trim(), body.trim())
			})
			.collect();
		let mut names = HashMap::new();
		for (i, (name, _)) in lines.iter().enumerate() {
			assert!(names.insert((*name).to_owned(), i as u16).is_none(), "{name}");
		}
		let mut nodes = Vec::new();
		let mut rules = Vec::new();
		for (_, body) in &lines {
			let mut reader = Reader {
				src: body.as_bytes(),
				pos: 0,
				nodes: &mut nodes,
				names: &names,
			};
			let id = reader.expr();
			assert_eq!(reader.peek(), 0, "{body}");
			rules.push(id);
		}
		Self { nodes, rules, names }
	}

	pub fn rule(&self, name: &str) -> u16 {
		self.names[name]
	}
}

const UNKNOWN: u16 = u16::MAX;
const FAIL: u16 = u16::MAX - 1;

/// An interpreter over one string of characters (without commas).
pub struct Morph<'p> {
	peg: &'p Peg,
	chars: Vec<u8>,
	memo: Vec<u16>,
	pub steps: u64,
}

impl<'p> Morph<'p> {
	pub fn new(peg: &'p Peg) -> Self {
		Self {
			peg,
			chars: Vec::new(),
			memo: Vec::new(),
			steps: 0,
		}
	}

	/// Start working on a new string. Characters outside of ASCII belong to no class.
	pub fn load(&mut self, chars: impl Iterator<Item = char>) {
		self.chars.clear();
		self
			.chars
			.extend(chars.map(|ch| if ch.is_ascii() { ch as u8 } else { 0xff }));
		let size = self.peg.rules.len() * (self.chars.len() + 1);
		self.memo.clear();
		self.memo.resize(size, UNKNOWN);
	}

	pub fn len(&self) -> usize {
		self.chars.len()
	}

	/// Apply a rule at a position; the position after the match is returned.
	pub fn at(&mut self, rule: u16, pos: usize) -> Option<usize> {
		let slot = pos * self.peg.rules.len() + rule as usize;
		match self.memo[slot] {
			UNKNOWN => {}
			FAIL => return None,
			end => return Some(end as usize),
		}
		self.steps += 1;
		let result = self.node(self.peg.rules[rule as usize], pos);
		self.memo[slot] = result.map_or(FAIL, |end| end as u16);
		result
	}

	fn node(&mut self, id: NodeId, pos: usize) -> Option<usize> {
		let peg = self.peg;
		match &peg.nodes[id as usize] {
			Node::Class(mask) => {
				let &ch = self.chars.get(pos)?;
				(ch < 128 && mask >> ch & 1 == 1).then_some(pos + 1)
			}
			Node::End => (pos == self.chars.len()).then_some(pos),
			Node::Rule(rule) => self.at(*rule, pos),
			Node::Seq(items) => {
				let mut pos = pos;
				for &item in items {
					pos = self.node(item, pos)?;
				}
				Some(pos)
			}
			Node::Alt(items) => items.iter().find_map(|&item| self.node(item, pos)),
			Node::Longest(items) => items.iter().filter_map(|&item| self.node(item, pos)).max(),
			Node::Opt(item) => Some(self.node(*item, pos).unwrap_or(pos)),
			Node::Star(item) => self.many(*item, pos, 0),
			Node::Many(item, min) => self.many(*item, pos, *min),
			Node::And(item) => self.node(*item, pos).map(|_| pos),
			Node::Not(item) => match self.node(*item, pos) {
				Some(_) => None,
				None => Some(pos),
			},
		}
	}

	fn many(&mut self, item: NodeId, mut pos: usize, min: usize) -> Option<usize> {
		let mut count = 0;
		while let Some(end) = self.node(item, pos) {
			assert!(end > pos, "a repetition in the reference morphology makes no progress");
			count += 1;
			pos = end;
		}
		(count >= min).then_some(pos)
	}
}

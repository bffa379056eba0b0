//! The reference grammar: loads models/grammar.txt and interprets it (with memoisation) over sequences of word classes.

use std::collections::HashMap;

use crate::text::{Names, Sel};

pub type NodeId = u16;
pub type RuleId = u16;
/// A set of word classes.
pub type Set = [u64; 4];

pub fn singleton(sel: Sel) -> Set {
	let mut set = [0; 4];
	set[sel as usize / 64] |= 1 << (sel % 64);
	set
}

pub fn has(set: &Set, sel: Sel) -> bool {
	set[sel as usize / 64] >> (sel % 64) & 1 == 1
}

pub fn members(set: &Set) -> Vec<Sel> {
	(0..=255).filter(|&sel| has(set, sel)).collect()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum TokenClass {
	/// `BAhE* X indicators? !BU !ZEI`
	Word,
	/// `BAhE* X !BU !ZEI`
	Plain,
	/// `X !BU !ZEI`
	Raw,
	/// `X`
	Bare,
}

#[derive(Debug, Clone)]
pub enum Node {
	Token(TokenClass, Sel),
	Any,
	In(Set),
	NotIn(Set),
	Until(Sel),
	Rule(RuleId),
	Seq(Vec<NodeId>),
	Opt(NodeId),
	Star(NodeId),
	Plus(NodeId),
	Not(NodeId),
	Cut(NodeId),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
	/// One node with the children of the body.
	Struct,
	/// No node: the children belong to the parent.
	Pass,
	/// One node for the chosen alternative.
	Enum,
	PassEnum,
	/// A single token under its own name.
	Leaf,
}

#[derive(Debug, Clone)]
pub struct Alternative {
	pub label: u16,
	pub body: NodeId,
	pub must_consume: bool,
}

#[derive(Debug, Clone)]
pub struct Rule {
	pub name: String,
	pub base: String,
	pub kind: Kind,
	pub alternatives: Vec<Alternative>,
	pub nonempty: bool,
	pub not_after: Option<NodeId>,
}

#[derive(Debug)]
pub struct Grammar {
	pub nodes: Vec<Node>,
	pub rules: Vec<Rule>,
	pub labels: Vec<String>,
	pub root: RuleId,
	pub indicators: RuleId,
	/// Word classes that the grammar mentions.
	pub alphabet: Vec<Sel>,
	pub classes: HashMap<Sel, TokenClass>,
	word_labels: Vec<u16>,
	bahe: Sel,
	bu: Sel,
	zei: Sel,
}

// --- loading ---

#[derive(Debug, Clone)]
enum Item {
	Name(String, Vec<Item>),
	Builtin(String, Vec<String>),
	Seq(Vec<Item>),
	Opt(Box<Item>),
	Star(Box<Item>),
	Plus(Box<Item>),
	Not(Box<Item>),
	Cut(Box<Item>),
}

#[derive(Debug, Clone)]
struct RawRule {
	kind: Kind,
	params: Vec<String>,
	flags: String,
	alternatives: Vec<(Option<String>, bool, Item)>,
}

struct Reader<'a> {
	src: &'a [u8],
	pos: usize,
}

impl<'a> Reader<'a> {
	fn new(src: &'a str) -> Self {
		Self {
			src: src.as_bytes(),
			pos: 0,
		}
	}
	fn peek(&mut self) -> u8 {
		while self.src.get(self.pos) == Some(&b' ') {
			self.pos += 1;
		}
		self.src.get(self.pos).copied().unwrap_or(0)
	}
	fn ident(&mut self) -> String {
		self.peek();
		let start = self.pos;
		while self.pos < self.src.len()
			&& (self.src[self.pos].is_ascii_alphanumeric() || self.src[self.pos] == b'_')
		{
			self.pos += 1;
		}
		assert!(self.pos > start, "name expected in {:?}", std::str::from_utf8(self.src));
		String::from_utf8(self.src[start..self.pos].to_vec()).unwrap()
	}
	fn items(&mut self) -> Item {
		let mut items = vec![];
		while !matches!(self.peek(), 0 | b')' | b',' | b'>') {
			items.push(self.item());
		}
		if items.len() == 1 {
			items.pop().unwrap()
		} else {
			Item::Seq(items)
		}
	}
	fn item(&mut self) -> Item {
		match self.peek() {
			b'!' => {
				self.pos += 1;
				return Item::Not(Box::new(self.item()));
			}
			b'^' => {
				self.pos += 1;
				return Item::Cut(Box::new(self.item()));
			}
			_ => {}
		}
		let atom = match self.peek() {
			b'(' => {
				self.pos += 1;
				let inner = self.items();
				assert_eq!(self.peek(), b')');
				self.pos += 1;
				inner
			}
			b'@' => {
				self.pos += 1;
				let name = self.ident();
				let mut args = vec![];
				if self.src.get(self.pos) == Some(&b'(') {
					while self.peek() != b')' {
						self.pos += 1;
						args.push(self.ident());
					}
					self.pos += 1;
				}
				Item::Builtin(name, args)
			}
			_ => {
				let name = self.ident();
				let mut args = vec![];
				if self.src.get(self.pos) == Some(&b'<') {
					while self.peek() != b'>' {
						self.pos += 1;
						args.push(self.items());
					}
					self.pos += 1;
				}
				Item::Name(name, args)
			}
		};
		match self.src.get(self.pos) {
			Some(b'?') => {
				self.pos += 1;
				Item::Opt(Box::new(atom))
			}
			Some(b'*') => {
				self.pos += 1;
				Item::Star(Box::new(atom))
			}
			Some(b'+') => {
				self.pos += 1;
				Item::Plus(Box::new(atom))
			}
			_ => atom,
		}
	}
}

struct Loader<'n> {
	names: &'n Names,
	raw: HashMap<String, RawRule>,
	aliases: HashMap<String, Item>,
	classes: HashMap<String, (TokenClass, Sel)>,
	nodes: Vec<Node>,
	rules: Vec<Option<Rule>>,
	instances: HashMap<(String, Vec<NodeId>), RuleId>,
	node_keys: HashMap<String, NodeId>,
	labels: Vec<String>,
	label_ids: HashMap<String, u16>,
}

type Env = HashMap<String, NodeId>;

impl Loader<'_> {
	fn node(&mut self, node: Node) -> NodeId {
		let key = format!("{node:?}");
		if let Some(&id) = self.node_keys.get(&key) {
			return id;
		}
		self.nodes.push(node);
		let id = (self.nodes.len() - 1) as NodeId;
		self.node_keys.insert(key, id);
		id
	}
	fn label(&mut self, label: String) -> u16 {
		if let Some(&id) = self.label_ids.get(&label) {
			return id;
		}
		self.labels.push(label.clone());
		let id = (self.labels.len() - 1) as u16;
		self.label_ids.insert(label, id);
		id
	}
	fn set(&self, names: &[String]) -> Set {
		let mut set = [0; 4];
		for name in names {
			let sel = self.names.by_variant[name.as_str()];
			set[sel as usize / 64] |= 1 << (sel % 64);
		}
		set
	}
	fn resolve(&mut self, item: &Item, env: &Env) -> NodeId {
		let node = match item {
			Item::Seq(items) => {
				let items = items.iter().map(|item| self.resolve(item, env)).collect();
				Node::Seq(items)
			}
			Item::Opt(item) => Node::Opt(self.resolve(item, env)),
			Item::Star(item) => Node::Star(self.resolve(item, env)),
			Item::Plus(item) => Node::Plus(self.resolve(item, env)),
			Item::Not(item) => Node::Not(self.resolve(item, env)),
			Item::Cut(item) => Node::Cut(self.resolve(item, env)),
			Item::Builtin(name, args) => match name.as_str() {
				"any" => Node::Any,
				"in" => Node::In(self.set(args)),
				"notin" => Node::NotIn(self.set(args)),
				"until" => Node::Until(self.names.by_variant[args[0].as_str()]),
				_ => panic!("@{name}"),
			},
			Item::Name(name, args) => {
				if let Some(&bound) = env.get(name) {
					assert!(args.is_empty());
					return bound;
				}
				if let Some(alias) = self.aliases.get(name).cloned() {
					return self.resolve(&alias, &Env::new());
				}
				if let Some(&(class, sel)) = self.classes.get(name) {
					Node::Token(class, sel)
				} else {
					let args = args.iter().map(|arg| self.resolve(arg, env)).collect();
					Node::Rule(self.instance(name, args))
				}
			}
		};
		self.node(node)
	}
	fn instance(&mut self, base: &str, args: Vec<NodeId>) -> RuleId {
		let key = (base.to_owned(), args);
		if let Some(&id) = self.instances.get(&key) {
			return id;
		}
		let id = self.rules.len() as RuleId;
		self.rules.push(None);
		let args = key.1.clone();
		self.instances.insert(key, id);
		let raw = self
			.raw
			.get(base)
			.unwrap_or_else(|| panic!("unknown grammar rule {base:?}"))
			.clone();
		assert_eq!(raw.params.len(), args.len(), "{base}");
		let env: Env = raw.params.iter().cloned().zip(args.iter().copied()).collect();
		let alternatives = raw
			.alternatives
			.iter()
			.map(|(variant, must_consume, item)| {
				let label = match variant {
					Some(variant) => format!("{base}::{variant}"),
					None => base.to_owned(),
				};
				Alternative {
					label: self.label(label),
					body: self.resolve(item, &env),
					must_consume: *must_consume,
				}
			})
			.collect();
		let not_after = raw
			.flags
			.strip_prefix("notafter ")
			.map(|name| self.resolve(&Item::Name(name.to_owned(), vec![]), &Env::new()));
		let name = if args.is_empty() {
			base.to_owned()
		} else {
			format!("{base}<{args:?}>")
		};
		self.rules[id as usize] = Some(Rule {
			name,
			base: base.to_owned(),
			kind: raw.kind,
			alternatives,
			nonempty: raw.flags == "nonempty",
			not_after,
		});
		id
	}
}

fn split_flag(text: &str) -> (&str, &str) {
	match text.split_once('[') {
		Some((before, flag)) => (before.trim(), flag.trim().trim_end_matches(']')),
		None => (text.trim(), ""),
	}
}

impl Grammar {
	pub fn load(text: &str, names: &Names) -> Self {
		let mut loader = Loader {
			names,
			raw: HashMap::new(),
			aliases: HashMap::new(),
			classes: HashMap::new(),
			nodes: vec![],
			rules: vec![],
			instances: HashMap::new(),
			node_keys: HashMap::new(),
			labels: vec![],
			label_ids: HashMap::new(),
		};
		let mut current: Option<String> = None;
		for line in text.lines() {
			if line.is_empty() || line.starts_with('#') {
				continue;
			}
			if let Some(rest) = line.strip_prefix('|') {
				let (head, body) = rest.split_once(':').unwrap();
				let (variant, flag) = split_flag(head);
				let item = Reader::new(body).items();
				let rule = loader.raw.get_mut(current.as_ref().unwrap()).unwrap();
				rule
					.alternatives
					.push((Some(variant.to_owned()), flag == "mustconsume", item));
				continue;
			}
			let (word, rest) = line.split_once(' ').unwrap();
			match word {
				"alias" => {
					let (name, body) = rest.split_once('=').unwrap();
					let item = Reader::new(body).items();
					loader.aliases.insert(name.trim().to_owned(), item);
				}
				"raw" | "plain" | "bare" | "word" => {
					let class = match word {
						"raw" => TokenClass::Raw,
						"plain" => TokenClass::Plain,
						"bare" => TokenClass::Bare,
						_ => TokenClass::Word,
					};
					for name in rest.split_whitespace() {
						let sel = names.by_variant[name];
						assert!(loader.classes.insert(name.to_owned(), (class, sel)).is_none());
					}
				}
				"struct" | "pass" | "enum" | "passenum" | "leaf" => {
					let (head, body) = rest.split_once(':').unwrap();
					let (head, flags) = split_flag(head);
					let (name, params) = match head.split_once('(') {
						Some((name, params)) => (
							name,
							params.trim_end_matches(')').split(',').map(str::to_owned).collect(),
						),
						None => (head, vec![]),
					};
					let kind = match word {
						"struct" => Kind::Struct,
						"pass" => Kind::Pass,
						"enum" => Kind::Enum,
						"passenum" => Kind::PassEnum,
						_ => Kind::Leaf,
					};
					let mut alternatives = vec![];
					if !matches!(kind, Kind::Enum | Kind::PassEnum) {
						alternatives.push((None, false, Reader::new(body).items()));
					}
					let rule = RawRule {
						kind,
						params,
						flags: flags.to_owned(),
						alternatives,
					};
					current = Some(name.to_owned());
					assert!(loader.raw.insert(name.to_owned(), rule).is_none(), "{name}");
				}
				_ => panic!("{line}"),
			}
		}
		let root = loader.instance("Text", vec![]);
		let indicators = loader.instance("Indicators", vec![]);
		// token classes that are only mentioned in a set have a node as well
		let mut alphabet: Vec<Sel> = loader
			.nodes
			.iter()
			.filter_map(|node| match node {
				Node::Token(_, sel) | Node::Until(sel) => Some(*sel),
				_ => None,
			})
			.chain([names.common.any_text, names.common.zoi_delimiter, names.common.bahe])
			.collect();
		alphabet.sort_unstable();
		alphabet.dedup();
		let classes = loader.classes.values().map(|&(class, sel)| (sel, class)).collect();
		let word_labels = names
			.variant
			.iter()
			.map(|variant| loader.label(format!("word {variant}")))
			.collect();
		Self {
			nodes: loader.nodes,
			rules: loader.rules.into_iter().map(Option::unwrap).collect(),
			labels: loader.labels,
			root,
			indicators,
			alphabet,
			classes,
			word_labels,
			bahe: names.common.bahe,
			bu: names.common.bu,
			zei: names.common.zei,
		}
	}

	pub fn rule_named(&self, name: &str) -> Vec<RuleId> {
		let found: Vec<_> = self
			.rules
			.iter()
			.enumerate()
			.filter(|(_, rule)| rule.base == name)
			.map(|(i, _)| i as RuleId)
			.collect();
		assert!(!found.is_empty(), "no rule {name}");
		found
	}
}

// --- interpretation ---

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
	/// A token of one of these classes was expected.
	Expected(Set),
	Other,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Failure {
	/// Index of the first token that was not acceptable.
	pub at: u16,
	pub kind: ErrorKind,
	fatal: bool,
}

impl Failure {
	fn other(at: usize) -> Self {
		Self {
			at: at as u16,
			kind: ErrorKind::Other,
			fatal: false,
		}
	}

	fn or(self, newer: Self) -> Self {
		use std::cmp::Ordering::{Equal, Greater, Less};
		match self.at.cmp(&newer.at) {
			Greater => self,
			Less => newer,
			Equal => match (self.kind, newer.kind) {
				(ErrorKind::Expected(a), ErrorKind::Expected(b)) => Self {
					kind: ErrorKind::Expected(std::array::from_fn(|i| a[i] | b[i])),
					..newer
				},
				_ => newer,
			},
		}
	}
}

pub type Outcome = Result<usize, Failure>;

const LABEL_PASS: u16 = u16::MAX;
const LABEL_TOKEN: u16 = u16::MAX - 1;

#[derive(Debug, Clone, Copy)]
struct TreeRec {
	label: u16,
	token: u16,
	kids: (u32, u32),
}

#[derive(Debug, Clone, Copy)]
struct Memo {
	outcome: Outcome,
	tree: u32,
}

/// A node of the finished tree.
#[derive(Debug, Clone, Copy)]
pub struct Out {
	/// Label of the construct, or `None` for a token.
	pub label: Option<u16>,
	/// First token and one past the last token, both 0 for an empty node.
	pub first: u16,
	pub end: u16,
	pub depth: u16,
	pub children: u16,
}

pub struct Interp<'g> {
	g: &'g Grammar,
	tokens: Vec<Sel>,
	bahe_ok: Vec<bool>,
	zei_ok: Vec<bool>,
	memo_index: Vec<u32>,
	memo: Vec<Memo>,
	trees: Vec<TreeRec>,
	kids: Vec<u32>,
	stack: Vec<u32>,
	pub steps: u64,
}

impl<'g> Interp<'g> {
	pub fn new(g: &'g Grammar) -> Self {
		Self {
			g,
			tokens: vec![],
			bahe_ok: vec![],
			zei_ok: vec![],
			memo_index: vec![],
			memo: vec![],
			trees: vec![],
			kids: vec![],
			stack: vec![],
			steps: 0,
		}
	}

	/// Parse a whole text. On success, `out` holds the tree in preorder.
	pub fn parse(&mut self, tokens: &[Sel], out: &mut Vec<Out>) -> Result<(), Failure> {
		let n = tokens.len();
		self.tokens.clear();
		self.tokens.extend_from_slice(tokens);
		self.bahe_ok.clear();
		self.bahe_ok.resize(n + 2, false);
		self.zei_ok.clear();
		self.zei_ok.resize(n + 2, false);
		for pos in (0..n).rev() {
			let followed = self.is(pos + 1, self.g.bu) || self.zei_ok[pos + 1];
			self.bahe_ok[pos] = tokens[pos] == self.g.bahe && !followed;
			self.zei_ok[pos] = if self.bahe_ok[pos] {
				self.zei_ok[pos + 1]
			} else {
				tokens[pos] == self.g.zei && !followed
			};
		}
		self.memo_index.clear();
		self.memo_index.resize((n + 1) * self.g.rules.len(), 0);
		self.memo.clear();
		self.trees.clear();
		self.kids.clear();
		self.stack.clear();
		out.clear();
		let end = self.rule(self.g.root, 0)?;
		if end < n {
			return Err(Failure::other(end));
		}
		let root = self.stack[0];
		self.emit(root, 0, out);
		Ok(())
	}

	fn is(&self, pos: usize, sel: Sel) -> bool {
		self.tokens.get(pos) == Some(&sel)
	}

	fn emit(&self, id: u32, depth: u16, out: &mut Vec<Out>) -> u16 {
		let rec = self.trees[id as usize];
		match rec.label {
			LABEL_TOKEN => {
				out.push(Out {
					label: None,
					first: rec.token,
					end: rec.token + 1,
					depth,
					children: 0,
				});
				1
			}
			LABEL_PASS => {
				let mut count = 0;
				for kid in rec.kids.0..rec.kids.1 {
					count += self.emit(self.kids[kid as usize], depth, out);
				}
				count
			}
			label => {
				let index = out.len();
				out.push(Out {
					label: Some(label),
					first: 0,
					end: 0,
					depth,
					children: 0,
				});
				let mut children = 0;
				for kid in rec.kids.0..rec.kids.1 {
					children += self.emit(self.kids[kid as usize], depth + 1, out);
				}
				let tokens = out[index..].iter().filter(|node| node.label.is_none());
				let (first, end) = (
					tokens.clone().next().map_or(0, |node| node.first),
					tokens.last().map_or(0, |node| node.end),
				);
				let node = &mut out[index];
				node.children = children;
				node.first = first;
				node.end = end;
				1
			}
		}
	}

	fn push_token(&mut self, pos: usize) {
		self.trees.push(TreeRec {
			label: LABEL_TOKEN,
			token: pos as u16,
			kids: (0, 0),
		});
		self.stack.push((self.trees.len() - 1) as u32);
	}

	/// Turn everything above `mark` on the stack into one node.
	fn close(&mut self, mark: usize, label: u16) -> u32 {
		let start = self.kids.len() as u32;
		self.kids.extend_from_slice(&self.stack[mark..]);
		let end = self.kids.len() as u32;
		self.stack.truncate(mark);
		self.trees.push(TreeRec {
			label,
			token: 0,
			kids: (start, end),
		});
		let id = (self.trees.len() - 1) as u32;
		self.stack.push(id);
		id
	}

	fn rule(&mut self, id: RuleId, pos: usize) -> Outcome {
		let slot = pos * self.g.rules.len() + id as usize;
		let found = self.memo_index[slot];
		if found != 0 {
			let memo = self.memo[found as usize - 1];
			if memo.outcome.is_ok() {
				self.stack.push(memo.tree);
			}
			return memo.outcome;
		}
		self.steps += 1;
		let mark = self.stack.len();
		let outcome = self.rule_body(id, pos);
		let tree = match outcome {
			Ok(_) => {
				debug_assert_eq!(self.stack.len(), mark + 1);
				self.stack[mark]
			}
			Err(_) => {
				self.stack.truncate(mark);
				0
			}
		};
		self.memo.push(Memo { outcome, tree });
		self.memo_index[slot] = self.memo.len() as u32;
		outcome
	}

	fn rule_body(&mut self, id: RuleId, pos: usize) -> Outcome {
		let g = self.g;
		let rule = &g.rules[id as usize];
		let mark = self.stack.len();
		let mut failed: Option<Failure> = None;
		let mut end = None;
		for alternative in &rule.alternatives {
			let mut outcome = self.node(alternative.body, pos);
			if alternative.must_consume && outcome == Ok(pos) {
				outcome = Err(Failure::other(pos));
			}
			match outcome {
				Ok(reached) => {
					let label = match rule.kind {
						Kind::Pass | Kind::PassEnum => LABEL_PASS,
						_ => alternative.label,
					};
					if rule.kind == Kind::Leaf {
						// one token
						debug_assert_eq!(self.stack.len(), mark + 1);
					} else {
						self.close(mark, label);
					}
					end = Some(reached);
					break;
				}
				Err(error) => {
					self.stack.truncate(mark);
					if error.fatal {
						return Err(error);
					}
					failed = Some(match failed {
						Some(failed) => failed.or(error),
						None => error,
					});
				}
			}
		}
		let Some(end) = end else {
			return Err(failed.unwrap());
		};
		if rule.nonempty && end == pos {
			return Err(Failure::other(pos));
		}
		if let Some(not_after) = rule.not_after {
			self.not(not_after, end)?;
		}
		Ok(end)
	}

	fn not(&mut self, item: NodeId, pos: usize) -> Outcome {
		let mark = self.stack.len();
		let outcome = self.node(item, pos);
		self.stack.truncate(mark);
		match outcome {
			Ok(_) => Err(Failure::other(pos)),
			Err(error) if error.fatal => Err(error),
			Err(_) => Ok(pos),
		}
	}

	fn token(&mut self, class: TokenClass, sel: Sel, pos: usize) -> Outcome {
		let mut at = pos;
		if matches!(class, TokenClass::Word | TokenClass::Plain) {
			while self.bahe_ok[at] {
				at += 1;
			}
		}
		if !self.is(at, sel) {
			return Err(Failure {
				at: at as u16,
				kind: ErrorKind::Expected(singleton(sel)),
				fatal: false,
			});
		}
		let mark = self.stack.len();
		for bahe in pos..at {
			self.push_token(bahe);
		}
		self.push_token(at);
		let mut end = at + 1;
		if class == TokenClass::Word {
			match self.rule(self.g.indicators, end) {
				Ok(after) => end = after,
				Err(error) if error.fatal => return Err(error),
				Err(_) => {}
			}
		}
		if class != TokenClass::Bare && (self.is(end, self.g.bu) || self.zei_ok[end]) {
			self.stack.truncate(mark);
			return Err(Failure::other(end));
		}
		if matches!(class, TokenClass::Word | TokenClass::Plain) {
			self.close(mark, self.g.word_labels[sel as usize]);
		}
		Ok(end)
	}

	fn node(&mut self, id: NodeId, pos: usize) -> Outcome {
		let g = self.g;
		match &g.nodes[id as usize] {
			Node::Token(class, sel) => self.token(*class, *sel, pos),
			Node::Rule(rule) => self.rule(*rule, pos),
			Node::Any => self.any(pos, |_| true),
			Node::In(set) => self.any(pos, |sel| has(set, sel)),
			Node::NotIn(set) => self.any(pos, |sel| !has(set, sel)),
			Node::Until(sel) => {
				let mut at = pos;
				loop {
					match self.token(TokenClass::Word, *sel, at) {
						Ok(end) => return Ok(end),
						Err(error) if error.fatal => return Err(error),
						Err(_) => at = self.any(at, |_| true)?,
					}
				}
			}
			Node::Seq(items) => {
				let mark = self.stack.len();
				let mut at = pos;
				for &item in items {
					match self.node(item, at) {
						Ok(end) => at = end,
						Err(error) => {
							self.stack.truncate(mark);
							return Err(error);
						}
					}
				}
				Ok(at)
			}
			Node::Opt(item) => match self.node(*item, pos) {
				Err(error) if !error.fatal => Ok(pos),
				outcome => outcome,
			},
			Node::Star(item) => self.many(*item, pos, false),
			Node::Plus(item) => self.many(*item, pos, true),
			Node::Not(item) => self.not(*item, pos),
			Node::Cut(item) => self.node(*item, pos).map_err(|error| Failure {
				fatal: true,
				..error
			}),
		}
	}

	fn any(&mut self, pos: usize, accept: impl Fn(Sel) -> bool) -> Outcome {
		match self.tokens.get(pos) {
			Some(&sel) if accept(sel) => {
				self.push_token(pos);
				Ok(pos + 1)
			}
			_ => Err(Failure::other(pos)),
		}
	}

	fn many(&mut self, item: NodeId, pos: usize, first: bool) -> Outcome {
		let mark = self.stack.len();
		let mut at = pos;
		if first {
			at = self.node(item, at)?;
		}
		loop {
			match self.node(item, at) {
				Ok(end) if end == at => {
					self.stack.truncate(mark);
					return Err(Failure::other(at));
				}
				Ok(end) => at = end,
				Err(error) if error.fatal => {
					self.stack.truncate(mark);
					return Err(error);
				}
				Err(_) => return Ok(at),
			}
		}
	}
}

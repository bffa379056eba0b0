//! Exhaustive generation of token sequences from the reference grammar, bounded by the number of deviations from
//! the shortest derivation: every optional part that is written out, every extra repetition and every alternative
//! other than the shortest one costs one deviation.

use std::collections::{BTreeSet, HashMap, HashSet};

use crate::grammar::{has, Grammar, Node, NodeId, RuleId};
use crate::text::Sel;

pub type Seq = Vec<Sel>;
/// `levels[c]`: the sequences whose cheapest derivation has exactly `c` deviations.
pub type Levels = Vec<Vec<Seq>>;

pub struct Gen<'g> {
	g: &'g Grammar,
	/// Shortest sequence of each rule and the alternative it comes from.
	min_rule: Vec<Option<(Seq, usize)>>,
	cache: HashMap<(RuleId, usize), std::rc::Rc<Levels>>,
	/// Representatives for "any token".
	any: Vec<Sel>,
	pub cap: usize,
	pub capped: bool,
}

fn dedup(levels: &mut Levels) {
	let mut seen: HashSet<Seq> = HashSet::new();
	for level in levels {
		level.retain(|seq| seen.insert(seq.clone()));
	}
}

impl<'g> Gen<'g> {
	pub fn new(g: &'g Grammar, any: Vec<Sel>) -> Self {
		let mut gen = Self {
			g,
			min_rule: vec![None; g.rules.len()],
			cache: HashMap::new(),
			any,
			cap: usize::MAX,
			capped: false,
		};
		loop {
			let mut changed = false;
			for id in 0..g.rules.len() {
				for (index, alternative) in g.rules[id].alternatives.iter().enumerate() {
					let Some(mut found) = gen.min_node(alternative.body) else {
						continue;
					};
					if found.is_empty() && (alternative.must_consume || g.rules[id].nonempty) {
						// the shortest nonempty derivation: one optional part
						let Some(forced) = gen.min_nonempty(alternative.body) else {
							continue;
						};
						found = forced;
					}
					let better = match &gen.min_rule[id] {
						Some((old, _)) => found.len() < old.len(),
						None => true,
					};
					if better {
						gen.min_rule[id] = Some((found, index));
						changed = true;
					}
				}
			}
			if !changed {
				break;
			}
		}
		for (id, min) in gen.min_rule.iter().enumerate() {
			assert!(min.is_some(), "rule {} derives nothing", g.rules[id].name);
		}
		gen
	}

	fn any_of(&self, id: NodeId) -> Vec<Sel> {
		match &self.g.nodes[id as usize] {
			Node::Any => self.any.clone(),
			Node::In(set) => (0..=255).filter(|&sel| has(set, sel)).collect(),
			Node::NotIn(set) => self.any.iter().copied().filter(|&sel| !has(set, sel)).collect(),
			_ => unreachable!(),
		}
	}

	pub fn min(&self, id: RuleId) -> &Seq {
		&self.min_rule[id as usize].as_ref().unwrap().0
	}

	fn min_node(&self, id: NodeId) -> Option<Seq> {
		Some(match &self.g.nodes[id as usize] {
			Node::Token(_, sel) | Node::Until(sel) => vec![*sel],
			Node::Any | Node::In(_) | Node::NotIn(_) => vec![self.any_of(id)[0]],
			Node::Rule(rule) => self.min_rule[*rule as usize].as_ref()?.0.clone(),
			Node::Seq(items) => {
				let mut seq = vec![];
				for &item in items {
					seq.extend(self.min_node(item)?);
				}
				seq
			}
			Node::Opt(_) | Node::Star(_) | Node::Not(_) => vec![],
			Node::Plus(item) | Node::Cut(item) => self.min_node(*item)?,
		})
	}

	fn min_nonempty(&self, id: NodeId) -> Option<Seq> {
		match &self.g.nodes[id as usize] {
			Node::Opt(item) | Node::Star(item) | Node::Plus(item) | Node::Cut(item) => {
				self.min_node(*item).filter(|seq| !seq.is_empty()).or_else(|| self.min_nonempty(*item))
			}
			Node::Seq(items) => items
				.iter()
				.filter_map(|&item| self.min_nonempty(item))
				.min_by_key(Vec::len),
			Node::Not(_) => None,
			Node::Rule(rule) => self
				.min_rule[*rule as usize]
				.as_ref()
				.map(|(seq, _)| seq.clone())
				.filter(|seq| !seq.is_empty())
				.or_else(|| {
					let rule = &self.g.rules[*rule as usize];
					rule
						.alternatives
						.iter()
						.filter_map(|alternative| self.min_nonempty_shallow(alternative.body))
						.min_by_key(Vec::len)
				}),
			_ => self.min_node(id),
		}
	}

	fn min_nonempty_shallow(&self, id: NodeId) -> Option<Seq> {
		match &self.g.nodes[id as usize] {
			Node::Opt(item) | Node::Star(item) => self.min_node(*item).filter(|seq| !seq.is_empty()),
			Node::Seq(items) => items
				.iter()
				.filter_map(|&item| self.min_nonempty_shallow(item))
				.min_by_key(Vec::len),
			Node::Rule(_) => self.min_node(id).filter(|seq| !seq.is_empty()),
			Node::Not(_) => None,
			_ => self.min_node(id).filter(|seq| !seq.is_empty()),
		}
	}

	fn limit(&mut self, levels: &mut Levels) {
		dedup(levels);
		for level in levels.iter_mut() {
			if level.len() > self.cap {
				level.truncate(self.cap);
				self.capped = true;
			}
		}
	}

	fn concat(&mut self, a: &Levels, b: &Levels, k: usize) -> Levels {
		let mut out: Levels = vec![vec![]; k + 1];
		for (ca, la) in a.iter().enumerate() {
			for (cb, lb) in b.iter().enumerate() {
				if ca + cb > k {
					continue;
				}
				for sa in la {
					for sb in lb {
						if out[ca + cb].len() > 4 * self.cap.min(usize::MAX / 4) {
							self.capped = true;
							break;
						}
						let mut seq = sa.clone();
						seq.extend_from_slice(sb);
						out[ca + cb].push(seq);
					}
				}
			}
		}
		self.limit(&mut out);
		out
	}

	pub fn rule(&mut self, id: RuleId, k: usize) -> std::rc::Rc<Levels> {
		if let Some(found) = self.cache.get(&(id, k)) {
			return found.clone();
		}
		let (min, min_index) = self.min_rule[id as usize].clone().unwrap();
		let mut out: Levels = vec![vec![]; k + 1];
		out[0].push(min);
		let rule = &self.g.rules[id as usize];
		let strict = rule.nonempty;
		for (index, alternative) in rule.alternatives.iter().enumerate() {
			let cost = usize::from(index != min_index);
			if cost > k {
				continue;
			}
			let levels = self.node(alternative.body, k - cost);
			for (c, level) in levels.into_iter().enumerate() {
				for seq in level {
					if !(seq.is_empty() && (strict || alternative.must_consume)) {
						out[c + cost].push(seq);
					}
				}
			}
		}
		self.limit(&mut out);
		let out = std::rc::Rc::new(out);
		self.cache.insert((id, k), out.clone());
		out
	}

	pub fn node(&mut self, id: NodeId, k: usize) -> Levels {
		let mut out: Levels = vec![vec![]; k + 1];
		match self.g.nodes[id as usize].clone() {
			Node::Token(_, sel) => out[0].push(vec![sel]),
			Node::Until(sel) => {
				out[0].push(vec![sel]);
				if k >= 1 {
					for any in self.any.clone() {
						out[1].push(vec![any, sel]);
					}
				}
			}
			Node::Any | Node::In(_) | Node::NotIn(_) => {
				for (i, sel) in self.any_of(id).into_iter().enumerate() {
					let cost = usize::from(i > 0);
					if cost <= k {
						out[cost].push(vec![sel]);
					}
				}
			}
			Node::Rule(rule) => {
				out = (*self.rule(rule, k)).clone();
			}
			Node::Seq(items) => {
				out[0].push(vec![]);
				for item in items {
					let levels = self.node(item, k);
					out = self.concat(&out, &levels, k);
				}
			}
			Node::Opt(item) => {
				out[0].push(vec![]);
				if k >= 1 {
					let levels = self.node(item, k - 1);
					for (c, level) in levels.into_iter().enumerate() {
						out[c + 1].extend(level);
					}
				}
			}
			Node::Star(item) => {
				out[0].push(vec![]);
				self.repeat(item, k, &mut out);
			}
			Node::Plus(item) => {
				out = self.node(item, k);
				let mut more: Levels = vec![vec![]; k + 1];
				more[0].push(vec![]);
				self.repeat(item, k, &mut more);
				out = self.concat(&out, &more, k);
			}
			Node::Not(_) => out[0].push(vec![]),
			Node::Cut(item) => out = self.node(item, k),
		}
		self.limit(&mut out);
		out
	}

	/// Add one or more repetitions, each costing a deviation.
	fn repeat(&mut self, item: NodeId, k: usize, out: &mut Levels) {
		if k == 0 {
			return;
		}
		let once = self.node(item, k - 1);
		let mut power: Levels = vec![vec![]; k + 1];
		for (c, level) in once.iter().enumerate() {
			power[c + 1].extend(level.iter().filter(|seq| !seq.is_empty()).cloned());
		}
		let single = power.clone();
		for _ in 0..k {
			for (c, level) in power.iter().enumerate() {
				out[c].extend(level.iter().cloned());
			}
			let next = self.concat(&power, &single, k);
			if next.iter().all(Vec::is_empty) {
				break;
			}
			power = next;
		}
	}

	/// Derivations of a rule in which one list, of those in its own body, has `n` elements, all alike; once for every
	/// element with up to `k` deviations.
	pub fn long(&mut self, id: RuleId, n: usize, k: usize) -> Vec<Seq> {
		let mut out = vec![];
		for alternative in &self.g.rules[id as usize].alternatives {
			self.long_node(alternative.body, n, k, &mut out);
		}
		out
	}

	fn long_node(&mut self, id: NodeId, n: usize, k: usize, out: &mut Vec<Seq>) {
		match self.g.nodes[id as usize].clone() {
			Node::Star(item) | Node::Plus(item) => {
				for seq in self.node(item, k).concat() {
					out.push(seq.repeat(n));
				}
				self.long_node(item, n, k, out);
			}
			Node::Seq(items) => {
				for (i, &item) in items.iter().enumerate() {
					let mut inner = vec![];
					self.long_node(item, n, k, &mut inner);
					for seq in inner {
						let mut whole = vec![];
						for &earlier in &items[..i] {
							whole.extend(self.min_node(earlier).unwrap());
						}
						whole.extend(seq);
						for &later in &items[i + 1..] {
							whole.extend(self.min_node(later).unwrap());
						}
						out.push(whole);
					}
				}
			}
			Node::Opt(item) | Node::Cut(item) => self.long_node(item, n, k, out),
			_ => {}
		}
	}

	/// For every rule, the shortest text around it: tokens before and after.
	pub fn contexts(&self) -> Vec<Option<(Seq, Seq)>> {
		let mut contexts: Vec<Option<(Seq, Seq)>> = vec![None; self.g.rules.len()];
		contexts[self.g.root as usize] = Some((vec![], vec![]));
		loop {
			let mut changed = false;
			for id in 0..self.g.rules.len() {
				let Some((before, after)) = contexts[id].clone() else {
					continue;
				};
				for alternative in &self.g.rules[id].alternatives {
					let mut found = vec![];
					self.occurrences(alternative.body, vec![], vec![], &mut found);
					for (rule, inner_before, inner_after) in found {
						let mut new_before = before.clone();
						new_before.extend(inner_before);
						let mut new_after = inner_after;
						new_after.extend(after.iter().copied());
						let better = match &contexts[rule as usize] {
							Some((b, a)) => new_before.len() + new_after.len() < b.len() + a.len(),
							None => true,
						};
						if better {
							contexts[rule as usize] = Some((new_before, new_after));
							changed = true;
						}
					}
				}
			}
			if !changed {
				return contexts;
			}
		}
	}

	fn occurrences(&self, id: NodeId, before: Seq, after: Seq, out: &mut Vec<(RuleId, Seq, Seq)>) {
		match &self.g.nodes[id as usize] {
			Node::Rule(rule) => out.push((*rule, before, after)),
			Node::Seq(items) => {
				for (i, &item) in items.iter().enumerate() {
					let mut new_before = before.clone();
					for &earlier in &items[..i] {
						new_before.extend(self.min_node(earlier).unwrap());
					}
					let mut new_after = vec![];
					for &later in &items[i + 1..] {
						new_after.extend(self.min_node(later).unwrap());
					}
					new_after.extend(after.iter().copied());
					self.occurrences(item, new_before, new_after, out);
				}
			}
			Node::Opt(item) | Node::Star(item) | Node::Plus(item) | Node::Cut(item) => {
				self.occurrences(*item, before, after, out);
			}
			_ => {}
		}
	}
}

/// All sequences that differ from `seq` by one deletion, one insertion or one replacement from `alphabet`.
pub fn neighbours(seq: &[Sel], alphabet: &[Sel], mut f: impl FnMut(&[Sel])) {
	let mut buf = Vec::with_capacity(seq.len() + 1);
	for i in 0..seq.len() {
		buf.clear();
		buf.extend_from_slice(&seq[..i]);
		buf.extend_from_slice(&seq[i + 1..]);
		f(&buf);
		for &sel in alphabet {
			if sel != seq[i] {
				buf.clear();
				buf.extend_from_slice(seq);
				buf[i] = sel;
				f(&buf);
			}
		}
	}
	for i in 0..=seq.len() {
		for &sel in alphabet {
			buf.clear();
			buf.extend_from_slice(&seq[..i]);
			buf.push(sel);
			buf.extend_from_slice(&seq[i..]);
			f(&buf);
		}
	}
}

/// Word classes reachable from a set of rules (used to pick an alphabet for an area of the grammar).
pub fn mentioned(g: &Grammar, rules: &[RuleId]) -> Vec<Sel> {
	let mut out = BTreeSet::new();
	for &rule in rules {
		for alternative in &g.rules[rule as usize].alternatives {
			collect(g, alternative.body, &mut out);
		}
	}
	out.into_iter().collect()
}

fn collect(g: &Grammar, id: NodeId, out: &mut BTreeSet<Sel>) {
	match &g.nodes[id as usize] {
		Node::Token(_, sel) | Node::Until(sel) => {
			out.insert(*sel);
		}
		Node::In(set) => out.extend((0..=255).filter(|&sel| has(set, sel))),
		Node::Seq(items) => items.iter().for_each(|&item| collect(g, item, out)),
		Node::Opt(item) | Node::Star(item) | Node::Plus(item) | Node::Not(item) | Node::Cut(item) => {
			collect(g, *item, out);
		}
		_ => {}
	}
}

//! The bounded input spaces: words, texts, histories and token sequences.

use std::collections::BTreeSet;

use crate::case::Case;
use crate::engine::{Engine, Worker};
use crate::gen::{neighbours, Gen};
use crate::grammar::{Grammar, RuleId};
use crate::props::{Models, OP_NEXT, OP_RAW, SEPARATORS};
use crate::text::Sel;

/// How a string becomes a case.
pub type Make = fn(String) -> Case;

// ---------------------------------------------------------------- strings

/// All sequences of `min..=max` units, concatenated.
pub fn strings(engine: &Engine<'_>, name: &str, units: &[&str], min: usize, max: usize, make: Make) {
	for len in min..=max {
		let n = units.len().pow(len as u32);
		engine.explore(&format!("{name}, length {len}"), n, |mut index, worker| {
			let mut text = String::new();
			for _ in 0..len {
				text.push_str(units[index % units.len()]);
				index /= units.len();
			}
			put(worker, make(text));
		});
	}
}

/// The most consonants in a stretch without separators. The library needs exponential time for some stretches with
/// many syllables (a known finding of C01), so that all spaces of text have a bound on them.
fn weight(text: &str) -> usize {
	text
		.split(crate::text::is_separator)
		.map(|run| {
			run
				.chars()
				.filter(|&ch| ch != ',' && !"aeiouyAEIOUY'h".contains(ch))
				.count()
		})
		.max()
		.unwrap_or(0)
}

fn put(worker: &mut Worker<'_>, case: Case) {
	let limit = worker.weight();
	let light = match &case {
		Case::Text(text) | Case::Ops(text, _) => weight(text) <= limit,
		// no word of a text ends with a comma
		Case::Word(text) if text.ends_with(',') => false,
		Case::Word(text) => text.chars().filter(|&ch| crate::text::is_consonant(ch)).count() <= limit + 1,
		_ => true,
	};
	if light {
		worker.case(case);
	}
}

pub const LETTERS: [&str; 25] = [
	"a", "e", "i", "o", "u", "y", "'", "b", "c", "d", "f", "g", "j", "k", "l", "m", "n", "p", "r", "s", "t", "v", "x",
	"z", ",",
];

const FEW_LETTERS: [&str; 13] = ["a", "i", "u", "y", "'", "b", "d", "l", "n", "r", "s", "t", "z"];

/// Patterns of words: `C` any consonant, `V` any vowel, the rest stands for itself.
const PATTERNS: &[&str] = &[
	"Cai", "Ca'V", "aCi", "CVbV", "CyCy", "CaCa", "CCa", "CCai", "CCy", "aCCa", "aiCCa", "CaCCa", "CCaCa", "CCaCCa",
	"loCCaCa", "loCaCCa", "miCaCCaCa", "CaCyCa", "CaCyCCa", "CaCybroda", "CCaCyCa", "toCCabru", "toCaCyba", "CarCa",
	"CanCa", "CairCCa", "Ca'arCCa", "CaCCaCa", "CaCaCaCa", "aCaCCa", "laCaCaCCa", "CaCCyCa", "CaCCybroda", "CCaCybroda",
	"broCaCa", "brodaCCa", "kaCCaCa", "baCrCa", "balrCCa", "CCu'a", "loCCu'a", "CaCCVbe", "CVCVbro", "CaCCVVba",
	"CaiCVba", "CCaiCa", "CaCai", "CaCCai", "CCaCai", "CaC", "CaCC", "CCaC", "CaCaC", "yCCa", "CaCy", "CaCCy", "CyCaCCa",
	"mlaCCa", "CCiCla", "CaCCiCla", "gisCCu", "CAbCa", "CaCCACa", "CACCaCa", "CaCaCCA", "loCCACabi", "CIsmCu",
	"iCCa", "uCCa", "iaCCa", "CiaCa", "CuiCa", "a'CCa", "ba'CCa", "CCa'a", "CCa'yCCa", "brodahyCCa", "CCaihyCCa",
	"Ca'ahyCCaCa", "spaCCahyCa", "CaiCai", "bliCCa", "CaCCabla", "CaCCabliku", "CCaCCu'a", "CaCCrCa", "CarlCa",
	"CCCa", "aCCCa", "baCCCa", "CaCCCa", "CCaCCa", "CaCaCCa", "CCCaCa", "loCCCaCa", "CaCCaCCa", "CaCyCCa", "CCaCyCa",
	"brodaCCCa", "CaCCCaCa", "CaCCCai", "spaCCCa", "CVCCVCV", "CCVCV", "CVCyCV", "CVCCa",
];

/// Consonants, the ones that matter most for clusters first.
const BY_WEIGHT: [&str; 17] = [
	"r", "s", "t", "n", "b", "l", "c", "d", "z", "m", "j", "k", "x", "p", "f", "g", "v",
];
const VOWELS_BY_WEIGHT: [&str; 5] = ["a", "i", "u", "e", "o"];

/// All instances of the patterns, each with as many different consonants as the budget allows.
fn patterns(engine: &Engine<'_>, patterns: &[&str], budget: usize, make: Make) {
	let mut ends = vec![];
	let mut total = 0;
	for pattern in patterns {
		let c = pattern.matches('C').count() as u32;
		let v = pattern.matches('V').count() as u32;
		let (mut nc, mut nv) = (17usize, 5usize);
		while nc.pow(c) * nv.pow(v) > budget {
			if nv > 3 {
				nv -= 1;
			} else {
				nc -= 1;
			}
		}
		total += nc.pow(c) * nv.pow(v);
		ends.push((total, nc, nv));
	}
	engine.explore(
		&format!("{} patterns of consonants, up to {budget} words each", patterns.len()),
		total,
		|mut index, worker| {
			let which = ends.partition_point(|end| end.0 <= index);
			let (_, nc, nv) = ends[which];
			index -= if which == 0 { 0 } else { ends[which - 1].0 };
			let mut text = String::new();
			for ch in patterns[which].chars() {
				match ch {
					'C' => {
						text.push_str(BY_WEIGHT[index % nc]);
						index /= nc;
					}
					'V' => {
						text.push_str(VOWELS_BY_WEIGHT[index % nv]);
						index /= nv;
					}
					ch => text.push(ch),
				}
			}
			put(worker, make(text));
		},
	);
}

/// Parts of words, chosen so that every kind of rafsi, syllable and word can be built.
pub const UNITS: [&str; 32] = [
	"a", "i", "u", "ai", "y", "'", "'a", "'y", "r", "n", "l", "s", "ba", "lo", "bai", "ca'a", "bad", "bro", "tsa", "blai",
	"broda", "bard", "brod", "sp", "strai", "BA", "bA", "Bro", "bI'a", "djan", "1", "h",
];

const MORE_UNITS: [&str; 32] = [
	"ia", "lob", "mlatu", "gismu", "cirla", "kla", "Ci", "zga",
	"e", "o", "ei", "au", "iau", "hy", "m", "t", "bu", "xo", "cy", "ti'e", "rau", "lujv", "fuivla", "kavbu", "jb", "dz",
	"sn", "KAv", "skA", "U", "AI", "2",
];

pub const BASE_WORDS: &[&str] = &[
	"gismu", "ko'a", "jbofuvi", "minajimpe", "jimpe", "tosmabru", "tosymabru", "totosymabru", "totototosymabru", "fuvi",
	"seki'u", "setese", "selma'o", "kiiibroda", "loslinku'i", "slinku'i", "alobroda", "alobrodan", "coiiiii", "tanjelavi",
	"mablabigerku", "blabigerku", "lojboprenu", "mipramido", "li123", "123moi", "yyy", "yyybroda", "spageti", "cidjrspageti",
	"spagetrcidja", "djarspageti", "spraile", "iglu", "praile", "saskrpina", "mabru", "tosmabruspageti", "le'arsrutu",
	"backemselrerkru", "brodyblabi", "brodyba'i", "klamybau", "fagyfesti", "zbasai", "nunkalri", "sutygau", "jvoste",
	"cevni", "cfari", "cmevla", "lujvo", "fu'ivla", "latmo'a", "cidjrpitsa", "kobliiku", "uiui", "iau", "iaua", "auai",
	"ko'akoa", "pa", "pare", "pareci", "ky", "kybroda", "bybycy", "a'yi", "ybu", "ky'abu", "mi'ebroda", "coidjan", "doi",
	"le'avla", "gicmu", "zgike", "ckule", "blotrskunri", "mulno", "dijysnuti", "bramlatu", "mlatybarda", "mlatyba'o",
	"brarla", "bangrxelvete", "ricrxaceru", "tci'ile", "tcIle", "tci'ilykemcantutra", "tricrlei", "skalduna", "sincrkobra",
	"pelnimre", "astro'omi'a", "o'anpa", "ianmali", "uinji", "buklua", "brodaspa", "spabroda", "spa'ybroda", "brodahybroda",
	"broda'yspa", "spageti'ybroda", "spageti'y", "brod", "ba'orzu'e", "zdarcau", "sairgoi", "fau'u", "bai'i", "djatutanjelavi",
	"mamymu", "mampa", "pampe'o", "kampu", "lekansa", "lekanlo", "zoncu'ai", "naiski", "tanxe", "xagji", "caxno", "lausku",
	"lonuklama", "nuklama", "klamanu", "miklamale", "lezarci", "miklamalezarci", "minelcilobroda", "ledjanbroda",
	"djanlebroda", "badna'y", "bancnu", "banxa", "xrxx", "bbb", "aaa", "ba'ba", "'a", "ba'", "h", "ahh", "ba,i", "a,i",
	"la,as", "klam,a", ",djan", "djan,", ",", ",,", "1a", "a1", "0", "ba1", "1ba", "b1", "11y", "y1", "yb", "by", "byby",
	"iy", "uy", "iyb", "ii", "uu", "ui'ui", "u'u", "i'ia", "bia", "dua", "gau", "ciodra", "cioidra", "aierne", "nalji",
	"sklcua", "tlupa", "ndiko", "djmisi", "tsmani", "mzabi", "bdzgra", "psyxologi", "mlatu'a", "kla'ama", "bro'ado",
];

/// Upper case in every subset of the vowels.
fn stresses(engine: &Engine<'_>, words: &[&str], limit: usize, make: Make) {
	engine.explore("stress marks on the base words", words.len(), |index, worker| {
		let word = words[index];
		let vowels: Vec<usize> = word
			.char_indices()
			.filter(|(_, ch)| "aeiouy".contains(*ch))
			.map(|(i, _)| i)
			.collect();
		if vowels.len() > limit {
			return;
		}
		for mask in 0..1u32 << vowels.len() {
			let mut text = word.as_bytes().to_vec();
			for (bit, &at) in vowels.iter().enumerate() {
				if mask >> bit & 1 == 1 {
					text[at] = text[at].to_ascii_uppercase();
				}
			}
			put(worker, make(String::from_utf8(text).unwrap()));
		}
	});
	engine.explore("single capitals in the base words", words.len(), |index, worker| {
		let word = words[index];
		for (i, _) in word.char_indices() {
			let mut text = word.as_bytes().to_vec();
			text[i] = text[i].to_ascii_uppercase();
			put(worker, make(String::from_utf8(text).unwrap()));
		}
		put(worker, make(word.to_ascii_uppercase()));
	});
}

/// Commas in every subset of the places of a word.
fn with_commas(engine: &Engine<'_>, words: &[&str], limit: usize, make: Make) {
	engine.explore("commas in the base words", words.len(), |index, worker| {
		let word = words[index];
		let chars: Vec<char> = word.chars().collect();
		let all = chars.len() <= limit;
		let n = chars.len() + 1;
		for mask in 0..1u64 << n.min(20) {
			if !all && mask.count_ones() > 2 {
				continue;
			}
			let mut text = String::new();
			for (i, &ch) in chars.iter().enumerate() {
				if mask >> i & 1 == 1 {
					text.push(',');
				}
				text.push(ch);
			}
			if mask >> chars.len() & 1 == 1 {
				text.push(',');
			}
			put(worker, make(text));
		}
	});
}

/// One change at every place: another letter put in or put instead, or a letter left out.
fn edits(engine: &Engine<'_>, name: &str, words: &[&str], letters: &[&str], make: Make) {
	engine.explore(name, words.len(), |index, worker| {
		let chars: Vec<char> = words[index].chars().collect();
		let join = |before: &[char], middle: &str, after: &[char]| {
			let mut text: String = before.iter().collect();
			text.push_str(middle);
			text.extend(after);
			text
		};
		for i in 0..=chars.len() {
			for &letter in letters {
				put(worker, make(join(&chars[..i], letter, &chars[i..])));
				if i < chars.len() {
					put(worker, make(join(&chars[..i], letter, &chars[i + 1..])));
				}
			}
			if i < chars.len() {
				put(worker, make(join(&chars[..i], "", &chars[i + 1..])));
			}
		}
	});
}

/// Every pair of words, written together.
fn pairs(engine: &Engine<'_>, name: &str, words: &[&str], make: Make) {
	engine.explore(name, words.len() * words.len(), |index, worker| {
		let (a, b) = (words[index / words.len()], words[index % words.len()]);
		put(worker, make(format!("{a}{b}")));
	});
}

const ODD: [&str; 14] = ["é", "ε", "🙂", "\u{301}", "\0", "w", "q", "W", "H", "’", "-", "\"", ";", "_"];

/// Which parts of the space of words to visit.
#[derive(Debug, Clone, Copy)]
pub struct Depth {
	pub letters: usize,
	pub few: usize,
	pub vowels: usize,
	pub units: usize,
	pub patterns: usize,
	/// The longest base words of which everything with one letter changed is visited.
	pub edits: usize,
}

pub fn lines(text: &'static str) -> Vec<&'static str> {
	text.lines().filter(|line| !line.trim().is_empty()).collect()
}

/// The words (chunks, rather) of the example texts.
pub fn known_chunks() -> Vec<&'static str> {
	let mut out = BTreeSet::new();
	for text in [include_str!("../models/sentences.txt"), include_str!("../models/srasu.txt")] {
		out.extend(text.split(crate::text::is_separator).filter(|chunk| !chunk.is_empty()));
	}
	out.extend(BASE_WORDS);
	out.into_iter().collect()
}

pub fn words(engine: &Engine<'_>, depth: Depth, make: Make) {
	let known = known_chunks();
	engine.cases("words of the example texts", known.iter().map(|&word| make(word.to_owned())).collect());
	strings(engine, "strings of letters", &LETTERS, 0, depth.letters, make);
	strings(engine, "strings of some letters", &FEW_LETTERS, depth.letters + 1, depth.few, make);
	strings(
		engine,
		"strings of vowels",
		&["a", "i", "u", "o", "y", "'", "b"],
		5,
		depth.vowels,
		make,
	);
	strings(engine, "strings of vowels and commas", &["a", "i", "y", "'", ",", "1", "h", "b"], 5, depth.vowels - 1, make);
	strings(engine, "strings of capitals", &["a", "A", "i", "I", "'", "y", "Y", "b", "l"], 4, depth.vowels - 1, make);
	strings(engine, "sequences of syllables and rafsi", &UNITS, 2, depth.units, make);
	let all_units: Vec<&str> = UNITS.iter().chain(&MORE_UNITS).copied().collect();
	strings(engine, "sequences of more syllables", &all_units, 2, depth.units - 1, make);
	patterns(engine, PATTERNS, depth.patterns, make);
	stresses(engine, &known, if engine.quick() { 5 } else { 9 }, make);
	with_commas(engine, BASE_WORDS, if engine.quick() { 6 } else { 9 }, make);
	let edit_letters: Vec<&str> = LETTERS.iter().chain(&ODD).chain(&["A", "E", "I", "1"]).copied().collect();
	let limit = depth.edits;
	let short: Vec<&str> = BASE_WORDS.iter().copied().filter(|word| word.len() <= limit).collect();
	edits(engine, &format!("base words of up to {limit} letters with one change"), &short, &edit_letters, make);
	if !engine.quick() {
		let short: Vec<&str> = known.iter().copied().filter(|word| word.len() <= 9).collect();
		edits(engine, "words of the example texts of up to 9 letters with one change", &short, &edit_letters, make);
	}
	let short: Vec<&str> = BASE_WORDS.iter().copied().filter(|word| word.len() <= 6).collect();
	pairs(engine, "pairs of base words of up to 6 letters", &short, make);
}

/// The words of the dictionary next to each other and next to other words.
pub fn compounds(engine: &Engine<'_>, make: Make) {
	let dict = &engine.models.dict.list;
	engine.explore("listed words joined with others", dict.len(), |index, worker| {
		let word = dict[index];
		let others = ["mi", "a", "broda", "y", "ui", "i", "gismu", "spageti", "'a", "1", "ybu"];
		for other in &others[..if engine.prop.heavy { 3 } else { others.len() }] {
			put(worker, make(format!("{word}{other}")));
			put(worker, make(format!("{other}{word}")));
			put(worker, make(format!("lo{word}{other}")));
		}
	});
}

// ---------------------------------------------------------------- texts

const CHUNKS: [&str; 12] = [
	"mi", "tosmabru", "djan", "lobroda", "a,", ",", "1", "coiii", ",djan,", "é", "broda", "y",
];

/// Sequences of chunks and separators.
pub fn texts(engine: &Engine<'_>, deep: usize, make: Make) {
	strings(
		engine,
		"chunks and separators",
		&["mi", "toba", "djan", ",", "a,", " ", ".", "\n"],
		0,
		deep,
		make,
	);
	let mut units: Vec<&str> = CHUNKS.to_vec();
	let separators: Vec<String> = SEPARATORS.iter().map(|sep| sep.to_string()).collect();
	units.extend(separators.iter().map(String::as_str));
	strings(engine, "more chunks and all separators", &units, 0, deep - 2, make);
	let known = known_chunks();
	engine.explore("known words in texts", known.len(), |index, worker| {
		let forms = ["{} {}", ".{}.", "{},.,mi", "\r{}", " {}\n.?{}!", "mi {}\tdjan.{}", "tosmabru{} {}tosmabru"];
		for form in &forms[..if engine.prop.heavy { 4 } else { forms.len() }] {
			put(worker, make(form.replace("{}", known[index])));
		}
	});
	let lines: Vec<&str> = [include_str!("../models/sentences.txt"), include_str!("../models/srasu.txt")]
		.into_iter()
		.flat_map(str::lines)
		.collect();
	let mut examples: Vec<Case> = lines.iter().map(|line| make((*line).to_owned())).collect();
	examples.extend(lines.chunks(30).map(|lines| make(lines.join("\n"))));
	engine.cases("example texts", examples);
}

/// Texts together with every history of calls.
pub fn call_histories(engine: &Engine<'_>, units: &[&str], deep: usize, calls: usize) {
	for len in 0..=deep {
		let n = units.len().pow(len as u32);
		engine.explore(
			&format!("texts of {len} parts with every history of up to {calls} calls"),
			n,
			|mut index, worker| {
				let mut text = String::new();
				for _ in 0..len {
					text.push_str(units[index % units.len()]);
					index /= units.len();
				}
				let useful = calls.min(len + 2);
				for count in 0..=useful {
					for mask in 0..1u32 << count {
						let ops = (0..count)
							.map(|bit| if mask >> bit & 1 == 1 { OP_RAW } else { OP_NEXT })
							.collect();
						put(worker, Case::Ops(text.clone(), ops));
					}
				}
			},
		);
	}
}

/// Texts with quotations of foreign text.
pub fn quotes(engine: &Engine<'_>, deep: usize, make: Make) {
	let prefixes = [
		"zoi", "la'o", "mu'oi", "so'e'ai", "me'oi", "zo'oi", "la'oi", "do'oi", "mi zoi", "mi zo'oi", "zo", "lo'u", "bu zoi",
		"fa'o", "mizoi", "zoi,", "ra'oi", "sa'ei",
	];
	let heads = ["", " gy", " gygy", " g,y", " broda", " zoi", " fa'o", ".djan", " gy,", "gy", " ,", " y"];
	let bodies: Vec<&str> = vec![
		"gy", "g,y", "gyg", "broda", ",", "zoi", "fa'o", "gy,", "djan", "mu'oi", "é", " ", ".", "\n", "GY", "me'oi",
	];
	engine.explore("quotations", prefixes.len() * heads.len(), |index, worker| {
		let start = format!("{}{}", prefixes[index / heads.len()], heads[index % heads.len()]);
		let mut frontier = vec![start];
		for _ in 0..=deep {
			for text in &frontier {
				put(worker, make(text.clone()));
				for tail in [" mi", " zoi gy x gy", " me'oi x", "."] {
					put(worker, make(format!("{text}{tail}")));
				}
			}
			let mut next = vec![];
			for text in &frontier {
				for &body in &bodies {
					// parts are separated by one space, or are separators themselves
					if body.trim().is_empty() || body == "." {
						next.push(format!("{text}{body}"));
					} else {
						next.push(format!("{text} {body}"));
					}
				}
			}
			frontier = next;
			if worker.stopped() {
				return;
			}
		}
	});
	// several quotations one after the other, with every separator
	strings(
		engine,
		"parts of quotations",
		&["zoi", "gy", " ", ".", ",", "so'e'ai", "me'oi", "mi", "fa'o"],
		0,
		deep + 4 - usize::from(engine.prop.heavy),
		make,
	);
	// every listed word may be what starts a quotation, or ends the text
	let dict = &engine.models.dict.list;
	engine.explore("listed words before other words", dict.len(), |index, worker| {
		let forms = ["{} gy x gy mi", "{}", "mi {} do", "{}.a.b.", "{} gy b", "bu {} {} mi {} do", "mi{} gy x gy", "zo {} do"];
		for form in &forms[..if engine.prop.heavy { 3 } else { forms.len() }] {
			put(worker, make(form.replace("{}", dict[index])));
		}
	});
	lengths(engine, make);
	// delimiters of every kind
	let known = known_chunks();
	engine.explore("delimiters", known.len(), |index, worker| {
		let word = known[index];
		let forms = [
			"zoi {} x {} mi",
			"me'oi {} {}",
			"do'oi.{}.{}",
			"zoi {} {}",
			"zoi.{}.x y.{}.mi",
			"la'o {} mi {}mi {} mi",
			"so'e'ai {} a {} b {} c",
			"mu'oi {}{} {} {}",
			"zoi mi{} x {} mi mi{}",
			"zo'oi {}",
			"zo {} {}",
			"fa'o {}",
			"zoi gy {} gy {}",
		];
		for form in &forms[..if engine.prop.heavy { 3 } else { forms.len() }] {
			put(worker, make(form.replace("{}", word)));
		}
	});
}

/// Texts with parts of every length.
fn lengths(engine: &Engine<'_>, make: Make) {
	let forms = ["zoi gy {} gy mi", "me'oi {} mi", "zoi {} x {} mi", "mi {} do", "zo'oi x{}", "so'e'ai gy a gy x{} gy", "zo {} {}"];
	let forms = &forms[..if engine.prop.heavy { 4 } else { forms.len() }];
	// units of which many in a row take no exponential time
	let units = ["a", "b", "ё", "🙂", ",", "dj", "xё"];
	let long: &[usize] = if engine.quick() { &[127, 128, 129, 255, 256, 257] } else { &[255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096] };
	let mut counts: Vec<usize> = (0..=if engine.quick() { 70 } else { 200 }).collect();
	counts.extend(long);
	engine.explore("parts of every length", counts.len() * units.len(), |index, worker| {
		let unit = units[index % units.len()].repeat(counts[index / units.len()]);
		for form in forms {
			worker.case(make(form.replace("{}", &unit)));
			worker.case(make(form.replace("{}", &format!("x{unit}"))));
		}
	});
}

/// Strings that are unpleasant to handle.
pub fn nasty(engine: &Engine<'_>, make: Make) {
	strings(
		engine,
		"unusual characters",
		&["a", "b", "'", ",", ".", " ", "é", "🙂", "\0", "\u{301}", "A", "y", "1", "\u{2028}", "’", "ß", "İ", "H"],
		0,
		if engine.quick() { 4 } else { 5 } - usize::from(engine.prop.heavy),
		make,
	);
	let limit = if engine.quick() { 8 } else { 12 } - 3 * usize::from(engine.prop.heavy);
	let words: Vec<&str> = BASE_WORDS.iter().copied().filter(|word| word.len() <= limit).collect();
	engine.explore("unusual characters in known words", words.len(), |index, worker| {
		let chars: Vec<char> = words[index].chars().collect();
		for i in 0..=chars.len() {
			for odd in ODD {
				let mut text: String = chars[..i].iter().collect();
				text.push_str(odd);
				text.extend(&chars[i..]);
				put(worker, make(format!("mi {text} mi")));
				put(worker, make(text));
			}
		}
	});
}

/// Every character there is, within a text. Of the blocks that consist of ideographs, Hangul, symbols outside of the
/// basic plane and the like, the quick tier takes the first and the last character.
pub fn characters(engine: &Engine<'_>, forms: &[&str], make: Make) {
	const BLOCK: u32 = 256;
	let limit = if engine.prop.heavy { 0x2100 } else { 0x3400 };
	let whole = |start: u32| {
		!engine.quick() || start < limit || start == 0x3000 || (0xfb00..0x1_0000).contains(&start)
			|| (0xa000..0xac00).contains(&start) && !engine.prop.heavy
	};
	engine.explore(
		&format!("{} in {}", if engine.quick() { "every kind of character" } else { "every character" }, forms.join(" | ")),
		(0x11_0000 / BLOCK) as usize,
		|index, worker| {
			let start = index as u32 * BLOCK;
			for ch in (start..start + BLOCK).filter_map(char::from_u32) {
				if whole(start) || ch as u32 == start || ch as u32 == start + BLOCK - 1 {
					for form in forms {
						put(worker, make(form.replace("{}", ch.encode_utf8(&mut [0; 4]))));
					}
				}
			}
		},
	);
}

// ---------------------------------------------------------------- tokens

/// Word classes that occur in the grammar, the others being represented by a few.
pub fn sels(models: &Models, names: &[&str]) -> Vec<Sel> {
	names
		.iter()
		.map(|name| {
			*models
				.names
				.by_variant
				.get(name)
				.unwrap_or_else(|| panic!("unknown word class {name}"))
		})
		.collect()
}

pub fn tokens(seq: &[Sel], worker: &mut Worker<'_>) {
	worker.case(Case::Tokens(seq.to_vec()));
}

/// All sequences over an alphabet, each wrapped as wanted.
pub fn sequences(
	engine: &Engine<'_>,
	name: &str,
	alphabet: &[Sel],
	min: usize,
	max: usize,
	emit: &(dyn Fn(&[Sel], &mut Worker<'_>) + Sync),
) {
	for len in min..=max {
		let n = alphabet.len().pow(len as u32);
		engine.explore(
			&format!("{name}: all sequences of {len} of {} word classes", alphabet.len()),
			n,
			|mut index, worker| {
				let mut seq = Vec::with_capacity(len);
				for _ in 0..len {
					seq.push(alphabet[index % alphabet.len()]);
					index /= alphabet.len();
				}
				emit(&seq, worker);
			},
		);
	}
}

/// Representatives of "any word" for generated texts.
pub fn any(models: &Models) -> Vec<Sel> {
	sels(
		models,
		&["Gismu", "Ui", "Bahe", "Zo", "Lehu", "Cmevla", "AnyText", "Faho", "Y", "UnknownCmavo"],
	)
}

/// Rules by name; a name also stands for its instances.
pub fn rules(g: &Grammar, names: &[&str]) -> Vec<RuleId> {
	let mut out = vec![];
	for name in names {
		out.extend(g.rule_named(name));
	}
	out.sort_unstable();
	out.dedup();
	out
}

pub fn all_rules(g: &Grammar) -> Vec<RuleId> {
	(0..g.rules.len() as RuleId).collect()
}

/// Derivations of the given rules with at most `k` deviations, each in the shortest text around it.
pub fn derivations(models: &Models, rules: &[RuleId], k: usize, cap: usize) -> (Vec<Vec<Sel>>, bool) {
	let g = &models.grammar;
	let mut gen = Gen::new(g, any(models));
	gen.cap = cap;
	let contexts = gen.contexts();
	let mut out = std::collections::HashSet::new();
	for &rule in rules {
		let Some((before, after)) = &contexts[rule as usize] else {
			continue;
		};
		let levels = gen.rule(rule, k);
		for level in levels.iter() {
			for seq in level {
				let mut text = before.clone();
				text.extend_from_slice(seq);
				text.extend_from_slice(after);
				out.insert(text);
			}
		}
	}
	let mut out: Vec<_> = out.into_iter().collect();
	out.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
	(out, gen.capped)
}

/// Every list of every one of the rules with `n` elements, all alike, each of them with at most `k` deviations.
pub fn long_lists(models: &Models, rules: &[RuleId], n: usize, k: usize) -> Vec<Vec<Sel>> {
	let g = &models.grammar;
	let mut gen = Gen::new(g, any(models));
	gen.cap = 2000;
	let contexts = gen.contexts();
	let mut out = BTreeSet::new();
	for &rule in rules {
		let Some((before, after)) = &contexts[rule as usize] else {
			continue;
		};
		for seq in gen.long(rule, n, k) {
			out.insert([before, &seq[..], after].concat());
		}
	}
	out.into_iter().collect()
}

/// Ba'e, indicators and the like, `n` of them, before and after every word of a text.
pub fn long_affixes(models: &Models, seeds: &[Vec<Sel>], affixes: &[&str], n: usize) -> Vec<Vec<Sel>> {
	let mut out = BTreeSet::new();
	for seed in seeds {
		for i in 0..=seed.len() {
			for sel in sels(models, affixes) {
				out.insert([&seed[..i], &vec![sel; n], &seed[i..]].concat());
			}
		}
	}
	out.into_iter().collect()
}

/// Sequences, and (for the short ones) everything that differs from them in one place.
pub fn around(
	engine: &Engine<'_>,
	name: &str,
	seeds: &[Vec<Sel>],
	alphabet: &[Sel],
	limit: usize,
	emit: &(dyn Fn(&[Sel], &mut Worker<'_>) + Sync),
) {
	engine.explore(name, seeds.len(), |index, worker| emit(&seeds[index], worker));
	engine.explore(&format!("{name}, one word changed"), seeds.len().min(limit), |index, worker| {
		neighbours(&seeds[index], alphabet, |seq| {
			if !worker.stopped() {
				emit(seq, worker);
			}
		});
	});
}

/// The word classes of the example texts.
pub fn example_tokens(models: &Models) -> Vec<Vec<Sel>> {
	let mut text = crate::text::Model::new(&models.names, &models.dict, &models.peg);
	let mut out = BTreeSet::new();
	let mut add = |line: &str| {
		let items = text.lex(line);
		let tokens: Option<Vec<Sel>> = items
			.iter()
			.map(|item| match item {
				crate::text::Item::Token { sel, .. } => Some(*sel),
				_ => None,
			})
			.collect();
		out.extend(tokens);
	};
	for line in include_str!("../models/sentences.txt").lines() {
		add(line);
	}
	add(include_str!("../models/srasu.txt"));
	let mut out: Vec<_> = out.into_iter().collect();
	out.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
	out
}

/// h and ' in every combination, with commas around them.
pub fn apostrophes(engine: &Engine<'_>, make: Make) {
	let known: Vec<&str> = known_chunks()
		.into_iter()
		.chain(engine.models.dict.list.iter().copied())
		.filter(|word| word.contains('\''))
		.collect();
	engine.explore("words with apostrophes", known.len(), |index, worker| {
		let word = known[index];
		let places: Vec<usize> = word.match_indices('\'').map(|(i, _)| i).collect();
		let n = places.len().min(4);
		for mask in 0..1u32 << n {
			for commas in [(false, false), (true, false), (false, true), (true, true)] {
				let mut text = String::new();
				for (i, ch) in word.char_indices() {
					match places.iter().position(|&place| place == i) {
						Some(bit) => {
							if commas.0 {
								text.push(',');
							}
							text.push(if bit < n && mask >> bit & 1 == 1 { 'h' } else { '\'' });
							if commas.1 {
								text.push(',');
							}
						}
						None => text.push(ch),
					}
				}
				put(worker, make(text.clone()));
				put(worker, make(format!("lo{text}")));
			}
		}
	});
}

/// The listed words in all their spellings, and everything close to them.
pub fn dictionary(engine: &Engine<'_>, wide: bool, make: Make) {
	let dict = &engine.models.dict.list;
	apostrophes(engine, make);
	engine.explore("listed words with commas", dict.len(), |index, worker| {
		let word = dict[index];
		put(worker, make(word.to_owned()));
		let all: Vec<String> = word.chars().map(|ch| ch.to_string()).collect();
		put(worker, make(all.join(",")));
		for i in 1..all.len() {
			put(worker, make(format!("{},{}", all[..i].concat(), all[i..].concat())));
			put(worker, make(format!(",{},,{}", all[..i].concat(), all[i..].concat())));
		}
		put(worker, make(word.to_uppercase()));
		for i in 0..all.len() {
			put(worker, make(format!("{}{}{}", all[..i].concat(), all[i].to_uppercase(), all[i + 1..].concat())));
		}
	});
	engine.cases(
		"runs of y",
		(1..=40)
			.flat_map(|n| {
				[
					"y".repeat(n),
					format!("{},", "y,".repeat(n - 1) + "y"),
					"Y".repeat(n),
					format!("{}'y", "y".repeat(n)),
				]
			})
			.filter(|text| !text.ends_with(','))
			.map(make)
			.collect(),
	);
	// everything that has the shape of a cmavo
	let onsets = [
		"", "b", "c", "d", "f", "g", "j", "k", "l", "m", "n", "p", "r", "s", "t", "v", "x", "z", "i", "u",
	];
	let nuclei = ["a", "e", "i", "o", "u", "y", "ai", "au", "ei", "oi", "ia", "ui"];
	let (no, nn) = (onsets.len(), nuclei.len());
	let parts = if wide { 3 } else { 2 };
	for count in 1..=parts {
		engine.explore(
			&format!("words shaped like cmavo with {count} vowels or diphthongs"),
			no * nn.pow(count as u32),
			|mut index, worker| {
				let mut text = onsets[index % no].to_owned();
				index /= no;
				for i in 0..count {
					if i > 0 {
						text.push('\'');
					}
					text.push_str(nuclei[index % nn]);
					index /= nn;
				}
				put(worker, make(text));
			},
		);
	}
	if wide {
		let limit = if engine.quick() { 5 } else { 9 };
		let short: Vec<&str> = dict.iter().copied().filter(|word| word.len() <= limit).collect();
		edits(
			engine,
			&format!("listed words of up to {limit} letters with one change"),
			&short,
			if engine.quick() {
				&["a", "e", "i", "o", "u", "y", "'", "h", "b", "l", "n", "r", ",", "1", "A", "é"]
			} else {
				&LETTERS
			},
			make,
		);
		let few = ["a", "i", "u", "y", "au", "ui", "by", "mi", "ba", "ku"];
		let others: Vec<&str> = if engine.quick() { few.to_vec() } else { dict.iter().copied().filter(|word| word.len() <= 2).collect() };
		engine.explore(&format!("listed words followed by {} short ones", others.len()), dict.len(), |index, worker| {
			for other in &others {
				put(worker, make(format!("{}{other}", dict[index])));
				put(worker, make(format!("{}'{other}", dict[index])));
			}
		});
	}
}

/// Known words, in short texts, with every history of calls.
pub fn histories_of_known(engine: &Engine<'_>, calls: usize) {
	let known = known_chunks();
	engine.explore("histories on known words", known.len(), |index, worker| {
		let forms = ["{}", ",{}, mi", "{},,. {}", "mi{}.{}", "{} mi"];
		for form in &forms[..if engine.prop.heavy { 2 } else { forms.len() }] {
			let text = form.replace("{}", known[index]);
			for count in 0..=calls {
				for mask in 0..1u32 << count {
					let ops = (0..count)
						.map(|bit| if mask >> bit & 1 == 1 { OP_RAW } else { OP_NEXT })
						.collect();
					put(worker, Case::Ops(text.clone(), ops));
				}
			}
		}
	});
}

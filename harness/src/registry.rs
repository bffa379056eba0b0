//! The properties and the spaces they are checked on.

use crate::case::Case;
use crate::engine::{Engine, Tier, Worker};
use crate::grammar::RuleId;
use crate::props::*;
use crate::spaces::*;
use crate::text::Sel;

fn text(text: String) -> Case {
	Case::Text(text)
}

fn word(text: String) -> Case {
	Case::Word(text)
}

fn ops(text: String) -> Case {
	Case::Ops(text, vec![])
}

fn depth(engine: &Engine<'_>) -> Depth {
	if engine.quick() {
		Depth { letters: 3, few: 4, vowels: 6, units: 3, patterns: 1000, edits: 8 }
	} else {
		Depth { letters: 4, few: 6, vowels: 7, units: 4, patterns: 30000, edits: 11 }
	}
}

// ---------------------------------------------------------------- everything at once

/// Repeated units, found to take exponential time or close to it (a known finding), which are repeated less often.
const SLOW: &str = include_str!("../models/slow.tsv");
const REPEATED_SINGLE: usize = 64;
const REPEATED_PAIR: usize = 24;
const REPEATED_WORD: usize = 40;
const REPEATED_TEXT: usize = 50;
const REPEATED_SLOW: usize = 4;

/// A repeated unit, by its name in the list of slow ones.
fn repeated_tokens(models: &Models) -> Vec<(String, Vec<Sel>, usize)> {
	let alphabet = alphabet(models);
	let name = |sel: Sel| models.names.variant[sel as usize];
	let mut out = vec![];
	for &a in &alphabet {
		out.push((format!("tokens {}", name(a)), vec![a], REPEATED_SINGLE));
		for &b in &alphabet {
			if a != b {
				out.push((format!("tokens {} {}", name(a), name(b)), vec![a, b], REPEATED_PAIR));
			}
		}
	}
	out
}

fn repeated_words(models: &Models) -> Vec<(String, String, usize)> {
	let mut units: Vec<String> = vec![];
	units.extend(LETTERS.iter().map(|&letter| letter.to_owned()));
	for a in LETTERS {
		units.extend(LETTERS.iter().map(|b| format!("{a}{b}")));
	}
	units.extend(UNITS.iter().map(|&unit| unit.to_owned()));
	units.extend(["é", "🙂", "A", "1", "\0", "ba'", "a,", "bad", "djan", "iau", "bra", "lo", "mi"].map(str::to_owned));
	let mut out: Vec<_> = units.into_iter().map(|unit| {
			let n = REPEATED_WORD / unit.chars().count().pow(2);
			(format!("word {unit}"), unit, n)
		}).collect();
	let texts = known_chunks().into_iter().filter(|word| word.len() <= 4).chain(models.dict.list.iter().copied());
	out.extend(texts.map(|word| (format!("text {word} "), format!("{word} "), REPEATED_TEXT)));
	out
}

fn with_ends(models: &Models, unit: &[Sel], n: usize) -> Vec<Case> {
	let ends: [&[&str]; 4] = [&[], &["Koha"], &["Gismu"], &["Koha", "Ku", "Gismu"]];
	ends
		.iter()
		.map(|end| {
			let mut seq: Vec<Sel> = unit.iter().copied().cycle().take(unit.len() * n).collect();
			seq.extend(sels(models, end));
			Case::Tokens(seq)
		})
		.collect()
}

fn repeated(unit: &str, n: usize) -> Vec<Case> {
	vec![text(unit.repeat(n)), text(format!("{} mi", unit.repeat(n / 2)))]
}

/// Find the slow ones.
pub fn measure(models: &'static Models, start: usize, parts: usize) {
	let mut all: Vec<(String, usize, Box<dyn Fn(usize) -> Vec<Case>>)> = vec![];
	for (name, unit, n) in repeated_tokens(models) {
		all.push((name, n, Box::new(move |n| with_ends(models, &unit, n))));
	}
	for (name, unit, n) in repeated_words(models) {
		all.push((name, n, Box::new(move |n| repeated(&unit, n))));
	}
	for (index, (name, n, make)) in all.iter().enumerate().skip(start).step_by(parts) {
		// step by step, so that little has been done when the limit is passed
		if (3..*n).step_by(4).chain([*n]).any(|n| too_slow(models, make(n), 250)) {
			println!("{name}");
			again("measure", index + parts, parts);
		}
	}
	std::process::exit(0);
}

fn run_c01(engine: &Engine<'_>) {
	let models = engine.models;
	let slow: std::collections::HashSet<&str> = SLOW.lines().collect();
	let scale = if engine.quick() { 1 } else { 2 };
	let units = repeated_tokens(models);
	engine.explore("repeated word classes and pairs of word classes", units.len(), |index, worker| {
		let (name, unit, n) = &units[index];
		let n = if slow.contains(name.as_str()) { REPEATED_SLOW * scale } else { *n };
		for n in [n / 3, n] {
			for case in with_ends(models, unit, n) {
				worker.case(case);
			}
		}
	});
	let units = repeated_words(models);
	engine.explore("repeated letters, syllables and words", units.len(), |index, worker| {
		let (name, unit, n) = &units[index];
		let n = if slow.contains(name.as_str()) { REPEATED_SLOW } else { *n };
		for case in repeated(unit, n) {
			worker.case(case);
		}
	});
	let all: Vec<Sel> = (0..models.names.repr.len() as Sel).collect();
	sequences(engine, "all word classes", &all, 0, 2, &tokens);
	if !engine.quick() {
		sequences(engine, "the word classes of the grammar", &alphabet(models), 3, 3, &tokens);
	}
	let (seeds, _) = derivations(models, &all_rules(&models.grammar), if engine.quick() { 1 } else { 2 }, 4000);
	around(engine, "derivations", &seeds, &alphabet(models), if engine.quick() { 600 } else { 6000 }, &tokens);
	for area in AREAS {
		for theme in area.themes {
			sequences(engine, &theme.join(" "), &sels(models, theme), 3, if engine.quick() { 4 } else { 6 }, &tokens);
		}
	}
	if engine.quick() {
		strings(engine, "strings of letters", &LETTERS, 0, 3, text);
		strings(engine, "sequences of syllables and rafsi", &UNITS, 2, 2, text);
	} else {
		words(engine, Depth { letters: 3, few: 4, vowels: 5, units: 3, patterns: 400, edits: 8 }, text);
	}
	texts(engine, if engine.quick() { 4 } else { 5 }, text);
	quotes(engine, if engine.quick() { 1 } else { 2 }, text);
	nasty(engine, text);
	characters(engine, &["mi{}na", "zoi g{}y {} g{}y"], text);
}

// ---------------------------------------------------------------- words and texts

fn run_c02(engine: &Engine<'_>) {
	words(engine, depth(engine), text);
	texts(engine, if engine.quick() { 5 } else { 6 }, text);
	nasty(engine, text);
	characters(engine, &["mi{}na"], text);
}

fn run_c03(engine: &Engine<'_>) {
	words(engine, Depth { letters: 3, few: 4, vowels: 5, units: 2, patterns: 100, edits: 4 }, text);
	texts(engine, if engine.quick() { 5 } else { 6 }, text);
	nasty(engine, text);
	characters(engine, &["mi{}na"], text);
}

fn run_c04(engine: &Engine<'_>) {
	words(
		engine,
		if engine.quick() {
			Depth { letters: 3, few: 3, vowels: 5, units: 2, patterns: 100, edits: 4 }
		} else {
			Depth { letters: 4, few: 5, vowels: 6, units: 3, patterns: 10000, edits: 9 }
		},
		text,
	);
	compounds(engine, text);
	apostrophes(engine, text);
	texts(engine, if engine.quick() { 4 } else { 5 }, text);
	characters(engine, &["m{},a"], text);
}

fn run_c05(engine: &Engine<'_>) {
	let depth = if engine.quick() {
		Depth { letters: 4, ..depth(engine) }
	} else {
		Depth { letters: 5, few: 6, vowels: 7, units: 4, patterns: 84000, edits: 12 }
	};
	words(engine, depth, text);
	compounds(engine, text);
	texts(engine, if engine.quick() { 4 } else { 5 }, text);
	nasty(engine, text);
	characters(engine, &["mi{}na"], text);
}

fn run_c06(engine: &Engine<'_>) {
	let depth = if engine.quick() {
		Depth { vowels: 5, patterns: 400, edits: 6, ..depth(engine) }
	} else {
		depth(engine)
	};
	words(engine, depth, text);
	compounds(engine, text);
	texts(engine, if engine.quick() { 3 } else { 5 }, text);
	dictionary(engine, false, word);
	characters(engine, &["{}", "b{}i"], text);
}

fn run_c07(engine: &Engine<'_>) {
	dictionary(engine, true, word);
	characters(engine, &["ko{}a", "k{}", "{}"], word);
}

const HISTORY: [&str; 8] = ["mi", "toba", "djan", ",", "a,", " ", ".", "1"];

fn run_c08(engine: &Engine<'_>) {
	call_histories(engine, &HISTORY, if engine.quick() { 4 } else { 5 }, if engine.quick() { 6 } else { 7 });
	histories_of_known(engine, if engine.quick() { 4 } else { 6 });
}

fn run_c09(engine: &Engine<'_>) {
	call_histories(engine, &HISTORY, if engine.quick() { 3 } else { 5 }, if engine.quick() { 3 } else { 5 });
	call_histories(engine, &HISTORY, 4, 1);
	histories_of_known(engine, if engine.quick() { 1 } else { 4 });
	quotes(engine, if engine.quick() { 1 } else { 2 }, ops);
	texts(engine, 4, ops);
	nasty(engine, ops);
	characters(engine, &["mi{}na"], ops);
}

fn run_c10(engine: &Engine<'_>) {
	quotes(engine, if engine.quick() { 2 } else { 3 }, text);
	texts(engine, if engine.quick() { 3 } else { 4 }, text);
	characters(engine, &["zoi g{}y {} gy g{}y mi", "zo'oi a{}e mi"], text);
}

fn run_c11(engine: &Engine<'_>) {
	quotes(engine, if engine.quick() { 1 } else { 3 }, text);
	texts(engine, if engine.quick() { 3 } else { 4 }, text);
}

fn run_c12(engine: &Engine<'_>) {
	texts(engine, if engine.quick() { 4 } else { 5 }, text);
	quotes(engine, if engine.quick() { 1 } else { 2 }, text);
	words(engine, Depth { letters: 3, few: 3, vowels: 5, units: 2, patterns: 200, edits: 5 }, text);
	compounds(engine, text);
	characters(engine, &["mi{}na"], text);
}

fn run_c13(engine: &Engine<'_>) {
	let n = engine.models.names.repr.len();
	engine.explore("all word classes, experimental and not", 2 * n, |index, worker| {
		worker.case(Case::Numbers(vec![(index / 2) as u32, (index % 2) as u32]));
	});
}

fn run_c28(engine: &Engine<'_>) {
	let limit: u32 = if engine.quick() { 13 } else { 24 };
	let pairs: Vec<(u32, u32)> = (0..=limit)
		.flat_map(|a| (a..=limit).map(move |b| (a, b)))
		.chain([(u32::MAX, u32::MAX), (u32::MAX - 1, u32::MAX), (0, u32::MAX), (5, u32::MAX)])
		.collect();
	engine.explore("all pairs of regions", pairs.len() * pairs.len(), |index, worker| {
		let (a, b) = (pairs[index / pairs.len()], pairs[index % pairs.len()]);
		worker.case(Case::Numbers(vec![a.0, a.1, b.0, b.1]));
	});
}

// ---------------------------------------------------------------- trees

struct Area {
	rules: &'static [&'static str],
	/// Small alphabets that are exhausted.
	themes: &'static [&'static [&'static str]],
}

const SUMTI: Area = Area {
	rules: &[
		"Sumti", "Sumti1", "Sumti3", "Sumti4", "SumtiComponent1", "GadriSumti", "GadriSumtiPre", "GadriSumtiContents",
		"LaSumti", "ModifiedSumti", "RelativeClauses", "RelativeClause", "GoiRelativeClause", "NoiRelativeClause",
		"VuhoRelative", "Arg", "Arg3", "Args", "TailArgs", "Termset", "Quantifier",
	],
	themes: &[
		&["Koha", "Le", "Gismu", "Ku", "Pa", "Noi", "Kuho", "Ui"],
		&["Koha", "La", "Cmevla", "Gismu", "Goi", "Gehu", "Zihe", "Pa"],
		&["Koha", "Lahe", "Luhu", "Nahe", "Bo", "Noi", "Kuho", "Vuho"],
		&["Koha", "A", "Bo", "Ke", "Kehe", "Ga", "Gi", "Vuho"],
		&["Koha", "Fa", "Na", "Ku", "Gismu", "Nuhi", "Cehe", "Ga", "Gi"],
		&["Le", "Koha", "Pa", "Gismu", "Be", "Beho", "Ku", "Boi"],
		&["Li", "Pa", "By", "Boi", "Moi", "Loho", "Le", "Ku"],
	],
};

const SELBRI: Area = Area {
	rules: &[
		"Selbri", "SelbriBefore", "Selbri1", "Selbri2", "Selbri3", "Selbri4", "Selbri5", "Selbri6", "TanruUnit",
		"TanruUnit1", "TanruUnit2", "BeforeTanruUnit", "BoundArguments", "NaheGuhekTGik", "SelbriLikeConnectedPost",
		"ZeiClause", "Guhek",
	],
	themes: &[
		&["Gismu", "Co", "Bo", "Ke", "Kehe", "Ja", "Cei", "Koha"],
		&["Gismu", "Be", "Bei", "Beho", "Koha", "Ke", "Kehe", "Bo"],
		&["Gismu", "Nu", "Kei", "Koha", "Ja", "Nai", "Se", "Ku"],
		&["Gismu", "Se", "Nahe", "Jai", "Na", "Pu", "Bo", "Bai"],
		&["Gismu", "Guha", "Gi", "Nahe", "Se", "Nai", "Co", "Ke"],
		&["Me", "Mehu", "Koha", "Moi", "Goha", "Raho", "Pa", "Gismu"],
		&["Gismu", "Zei", "Bu", "Koha", "Lujvo", "Fuhivla", "Nuha", "Vuhu"],
		&["Gismu", "Joi", "Bo", "Ke", "Kehe", "Pu", "Co", "Gaho", "Bihi"],
	],
};

const TAGS: Area = Area {
	rules: &[
		"Tag", "TagWord", "TagValue", "TimeSpaceCaha", "Time", "TimeOffset", "TimeDuration", "IntervalProperty", "Space",
		"SpaceOffset", "SpaceInterval", "SpaceIntervalProperty", "SpaceMotion", "EitherOrBoth", "SelbriBefore",
		"BeforeTanruUnit",
	],
	themes: &[
		&["Pu", "Zi", "Nai", "Zeha", "Roi", "Pa", "Koha", "Gismu"],
		&["Va", "Faha", "Nai", "Veha", "Viha", "Mohi", "Ku", "Gismu"],
		&["Fehe", "Roi", "Pa", "Zaho", "Tahe", "Nai", "Faha", "Gismu"],
		&["Bai", "Se", "Nahe", "Nai", "Ki", "Koha", "Ku", "Pu"],
		&["Fiho", "Fehu", "Gismu", "Koha", "Cuhe", "Ki", "Ja", "Pu"],
		&["Pu", "Caha", "Va", "Ku", "Koha", "Ja", "Gi", "Ke"],
		&["Pu", "Bai", "Bo", "I", "Giha", "Gismu", "Koha", "Ja"],
		&["Jai", "Pu", "Bai", "Fa", "Koha", "Gismu", "Ku", "Ki"],
	],
};

const MEKSO: Area = Area {
	rules: &[
		"Quantifier", "Number", "NumberRest", "LerfuString", "MiscNumbers", "LerfuWord", "Lerfu", "BuInner", "Expression",
		"ReversePolish", "RPTail", "Expression1", "ForethoughtExpression", "Operand", "Operand1", "Operand2", "Operand3",
		"Operand2ConnectedPre", "Operator", "Operator1", "Operator2", "Operator3", "OperatorComponent",
		"OperatorComponentPre", "OperatorComponent1", "Subscript", "SubscriptValue",
	],
	themes: &[
		&["Li", "Pa", "Vuhu", "Boi", "Vei", "Veho", "Loho", "Gismu"],
		&["By", "Pa", "Lau", "Tei", "Foi", "Bu", "Boi", "Moi"],
		&["Li", "Pa", "Vuhu", "Peho", "Kuhe", "Bihe", "Boi", "Vei"],
		&["Li", "Fuha", "Pa", "Boi", "Vuhu", "By", "Se"],
		&["Li", "Pa", "Nihe", "Gismu", "Tehu", "Mohe", "Koha", "Johi"],
		&["Li", "Pa", "Maho", "Tehu", "Nahu", "Gismu", "Vuhu", "Boi"],
		&["Li", "Pa", "A", "Bo", "Ke", "Kehe", "Ga", "Gi"],
		&["Li", "Pa", "Vuhu", "Joi", "Bo", "Ke", "Kehe", "Nahe"],
		&["Li", "Pa", "Vuhu", "Guha", "Gi", "Nahe", "Se", "Boi"],
		&["Pa", "Koha", "Gismu", "Boi", "Ku", "Moi", "Mai", "By"],
		&["Koha", "Xi", "Pa", "Vei", "Veho", "Boi", "By", "Moi"],
		&["Li", "Lahe", "Luhu", "Pa", "Nahe", "Bo", "Vuhu", "Boi"],
	],
};

const CONNECTIVES: Area = Area {
	rules: &[
		"Ek", "Jek", "Gihek", "Guhek", "Interval", "Joik", "Gik", "Gek", "JoikJek", "JoikEk", "NaSeTNai",
		"SumtiLikeConnectedPost", "SelbriLikeConnectedPost", "PeheConnective", "SentenceTail1After", "SentenceTail2After",
		"SentenceTail3After", "SentenceTail2Connective", "GekSentence", "Sumti3ConnectedPre", "NaheGuhekTGik",
		"Operand2ConnectedPre", "ConnectedSentenceSeparator", "CloseSentenceSeparator", "Termset",
	],
	themes: &[
		&["Koha", "Gismu", "A", "Se", "Na", "Nai", "Bo", "Ke"],
		&["Koha", "Gismu", "Ja", "Se", "Na", "Nai", "I", "Bo"],
		&["Koha", "Joi", "Se", "Nai", "Bihi", "Gaho", "Gi", "Gismu"],
		&["Gismu", "Koha", "Giha", "Ke", "Kehe", "Bo", "Vau", "Pu"],
		&["Gismu", "Koha", "Ga", "Gi", "Nai", "Se", "Na", "Vau"],
		&["Koha", "Pehe", "Ja", "Cehe", "Nuhi", "Nuhu", "Gismu", "Ga", "Gi"],
		&["Koha", "Pu", "Gi", "Joi", "Gismu", "Bai", "Nai"],
		&["Koha", "A", "Ke", "Kehe", "Pu", "Bo", "Gismu", "Joi"],
		&["Gismu", "Na", "Giha", "Se", "Nai", "Ke", "Bo", "Ja"],
	],
};

const FREE: Area = Area {
	rules: &[
		"Free", "Frees", "Vocative", "VocativeWords", "VocativeValue", "SeiTail", "Subscript", "SubscriptValue", "Indicators",
		"Indicator", "WithFree", "ZeiClause", "ZeiTail", "ZeiBuInner", "BuInner", "Lerfu",
	],
	themes: &[
		&["Koha", "Gismu", "Ui", "Nai", "Bahe", "Bu", "Zei", "Cu"],
		&["Fuhe", "Ui", "Cai", "Daho", "Fuho", "Y", "Bu", "Koha"],
		&["Sei", "Gismu", "Koha", "Sehu", "Cu", "Ui", "Bahe", "To"],
		&["To", "Toi", "Koha", "I", "Gismu", "Ui", "Bu", "Faho"],
		&["Coi", "Doi", "Nai", "Dohu", "Cmevla", "Koha", "Gismu", "Noi"],
		&["Soi", "Koha", "Sehu", "Gismu", "Xi", "Pa", "Ui", "Fa"],
		&["Pa", "Mai", "By", "Xi", "Boi", "Moi", "Koha", "Ui"],
		&["Gismu", "Zei", "Bu", "Bahe", "Ui", "By", "Y", "Zo"],
		&["Bahe", "Bu", "Zei", "Si", "Sa", "Su", "Gismu", "Koha"],
		&["Koha", "Ku", "Ui", "Xi", "By", "Le", "Gismu", "Sei"],
	],
};

const TEXT: Area = Area {
	rules: &[
		"Text", "Paragraphs", "Paragraph", "ParagraphItem", "Fragment", "Sentences1", "Sentences3", "ParagraphSeparator",
		"SentenceSeparator", "ConnectedSentenceSeparator", "CloseSentenceSeparator", "Sentence", "SentenceTail",
		"SentenceTail1", "SentenceTail2", "SentenceTail3", "SentenceTail4", "SentenceTail1After", "SentenceTail2After",
		"SentenceTail3After", "GekSentence", "Subsentence", "Prenex", "TailArgs", "Args",
	],
	themes: &[
		&["I", "Niho", "Gismu", "Koha", "Faho", "Ui", "Vau", "Bu"],
		&["I", "Koha", "Zohu", "Gismu", "Cu", "Vau", "Niho", "Tuhe"],
		&["Tuhe", "Tuhu", "I", "Bo", "Ja", "Pu", "Gismu", "Niho"],
		&["I", "Ja", "Bo", "Pu", "Gismu", "Koha", "Zohu", "Joi"],
		&["Na", "A", "Ja", "Giha", "Joi", "Pa", "I", "Koha"],
		&["Gismu", "Koha", "Giha", "Cu", "Vau", "Ke", "Kehe", "Bo"],
		&["Na", "Pu", "Ke", "Ga", "Gi", "Gismu", "Kehe", "Koha"],
		&["Koha", "Cu", "Na", "Ku", "Fa", "Gismu", "Pu", "Vau"],
	],
};

const QUOTES: Area = Area {
	rules: &["LohuSumti", "LuSumti", "ZoSumti", "ZoiSumti", "SumtiComponent1", "ZoiText", "ZoiDelimiter"],
	themes: &[
		&["Lu", "Lihu", "Gismu", "Koha", "I", "Ui", "Faho", "Cu"],
		&["Lohu", "Lehu", "Zo", "Zei", "Bu", "Bahe", "Gismu", "Ui"],
		&["Zo", "Zoi", "Bu", "Zei", "Bahe", "Lohu", "Koha", "Gismu"],
		&["Zoi", "ZoiDelimiter", "AnyText", "Gismu", "Ui", "Noi", "Koha"],
		&["Lu", "Lihu", "Lohu", "Lehu", "Zo", "Faho", "Niho", "Noi"],
		&["Le", "Zo", "Gismu", "Ku", "Lu", "Lihu", "A", "Koha"],
		&["Lohu", "Lehu", "Faho", "AnyText", "Si", "Y", "Koha"],
	],
};

const AREAS: [&Area; 8] = [&SUMTI, &SELBRI, &TAGS, &MEKSO, &CONNECTIVES, &FREE, &TEXT, &QUOTES];

fn alphabet(models: &Models) -> Vec<Sel> {
	let mut out = models.grammar.alphabet.clone();
	out.extend(sels(models, &["UnknownCmavo", "Muhoi", "Si", "Sa", "Su"]));
	out.sort_unstable();
	out.dedup();
	out
}

fn run_area(engine: &Engine<'_>, area: &Area) {
	let models = engine.models;
	let g = &models.grammar;
	let area_rules = rules(g, area.rules);
	let (k, cap, length) = if engine.quick() { (3, 6000, 5) } else { (4, 60000, 7) };
	let (seeds, _) = derivations(models, &area_rules, 1, cap);
	around(engine, "derivations with one deviation", &seeds, &alphabet(models), usize::MAX, &tokens);
	for theme in area.themes {
		let theme_sels = sels(models, theme);
		sequences(engine, &theme.join(" "), &theme_sels, 0, length, &tokens);
	}
	run_long(engine, &area_rules, &tokens);
	let (seeds, capped) = derivations(models, &area_rules, k, cap);
	engine.explore(
		&format!(
			"derivations with up to {k} deviations{}",
			if capped { format!(", the first {cap} of each rule and number of deviations") } else { String::new() }
		),
		seeds.len(),
		|index, worker| tokens(&seeds[index], worker),
	);
	// the examples, and those of the area again with one word changed
	let examples = example_tokens(models);
	engine.explore("example texts", examples.len(), |index, worker| tokens(&examples[index], worker));
	if !engine.quick() {
		let (seeds, _) = derivations(models, &area_rules, 2, 2000);
		around(engine, "derivations with two deviations", &seeds, &alphabet(models), 6000, &tokens);
	}
}

fn run_c17(engine: &Engine<'_>) {
	run_area(engine, &SUMTI);
}
fn run_c18(engine: &Engine<'_>) {
	run_area(engine, &SELBRI);
}
fn run_c19(engine: &Engine<'_>) {
	run_area(engine, &TAGS);
}
fn run_c20(engine: &Engine<'_>) {
	run_area(engine, &MEKSO);
}
fn run_c21(engine: &Engine<'_>) {
	run_area(engine, &CONNECTIVES);
}
fn run_c22(engine: &Engine<'_>) {
	run_area(engine, &FREE);
}
fn run_c23(engine: &Engine<'_>) {
	run_area(engine, &TEXT);
}
fn run_c24(engine: &Engine<'_>) {
	run_area(engine, &QUOTES);
}

/// Texts with long lists that, by measurement, take exponential time (a known finding), and are left out.
const SLOW_LISTS: &str = include_str!("../models/slow-lists.tsv");

/// A text by its word classes, with repetitions written shortly.
fn compact(models: &Models, seq: &[Sel]) -> String {
	let mut out: Vec<String> = vec![];
	let name = |sel: &Sel| models.names.variant[*sel as usize];
	let mut i = 0;
	while i < seq.len() {
		let rest = &seq[i..];
		let times = |p: usize| rest.chunks_exact(p).take_while(|chunk| *chunk == &rest[..p]).count();
		let best = (1..=(rest.len() / 3).min(20)).filter(|&p| times(p) >= 3).max_by_key(|&p| (times(p) * p, usize::MAX - p));
		let (p, n) = best.map_or((1, 1), |p| (p, times(p)));
		let unit: Vec<&str> = rest[..p].iter().map(name).collect();
		out.push(match (p, n) {
			(1, 1) => unit[0].to_owned(),
			_ => format!("{n}*({})", unit.join(" ")),
		});
		i += n * p;
	}
	out.join(" ")
}

/// Texts of word classes with a common description.
type Group = (String, Vec<Vec<Sel>>);

/// Lists with many elements, and many ba'e, indicators and so on at one place.
fn long_texts(models: &Models, area: &[RuleId], quick: bool) -> Vec<Group> {
	let mut out = vec![];
	let sizes: &[(usize, usize)] =
		if quick { &[(2, 1), (3, 1), (70, 1), (300, 0)] } else { &[(2, 2), (3, 2), (5, 1), (17, 1), (70, 1), (300, 0), (1100, 0)] };
	for &(n, k) in sizes {
		let name = format!("every list with {n} elements, each with up to {k} deviations");
		out.push((name, long_lists(models, area, n, k)));
	}
	let sizes: &[(usize, usize)] = if quick { &[(2, 1), (3, 0), (70, 0)] } else { &[(2, 2), (3, 1), (70, 0), (300, 0)] };
	for &(n, k) in sizes {
		let (seeds, _) = derivations(models, area, k, 2000);
		let affixes: &[&str] = if n < 10 { &["Bahe", "Ui", "Nai", "Y", "Bu"] } else { &["Ui", "Y"] };
		let name = format!("{n} times {} at every place of derivations with up to {k} deviations", affixes.join(" or "));
		out.push((name, long_affixes(models, &seeds, affixes, n)));
	}
	out
}

fn run_long(engine: &Engine<'_>, area: &[RuleId], emit: &(dyn Fn(&[Sel], &mut Worker<'_>) + Sync)) {
	let models = engine.models;
	let slow: std::collections::HashSet<&str> = SLOW_LISTS.lines().collect();
	for (name, seeds) in long_texts(models, area, engine.quick()) {
		engine.explore(&name, seeds.len(), |index, worker| {
			let seq = &seeds[index];
			if seq.len() < 12 || !slow.contains(compact(models, seq).as_str()) {
				emit(seq, worker);
			}
		});
	}
}

/// Find the slow ones among the long lists.
pub fn measure_lists(models: &'static Models, start: usize, parts: usize) {
	let all = all_rules(&models.grammar);
	let mut texts: Vec<Vec<Sel>> = [true, false].into_iter().flat_map(|quick| long_texts(models, &all, quick)).flat_map(|group| group.1).collect();
	texts.retain(|seq| seq.len() >= 12);
	texts.sort();
	texts.dedup();
	for (index, seq) in texts.iter().enumerate().skip(start).step_by(parts) {
		if too_slow(models, vec![Case::Tokens(seq.clone())], 1000) {
			println!("{}", compact(models, seq));
			again("measure-lists", index + parts, parts);
		}
	}
	std::process::exit(0);
}

/// Whether the cases take longer than that many milliseconds.
fn too_slow(models: &'static Models, cases: Vec<Case>, limit: u64) -> bool {
	let (sender, receiver) = std::sync::mpsc::channel();
	std::thread::Builder::new()
		.stack_size(256 << 20)
		.spawn(move || {
			let mut scratch = Scratch::new(models);
			for case in cases {
				let _ = totality(&case, &mut scratch);
			}
			let _ = sender.send(());
		})
		.unwrap();
	receiver.recv_timeout(std::time::Duration::from_millis(limit)).is_err()
}

/// Go on in a new process, to be rid of the thread that does not end.
fn again(command: &str, start: usize, parts: usize) {
	use std::os::unix::process::CommandExt as _;
	let _ = std::process::Command::new(std::env::current_exe().unwrap())
		.args([command, &start.to_string(), &parts.to_string()])
		.exec();
}

/// The space of whole texts used by the general properties of trees.
fn run_general(engine: &Engine<'_>, emit: &(dyn Fn(&[Sel], &mut Worker<'_>) + Sync), weight: usize) {
	let models = engine.models;
	let g = &models.grammar;
	let all: Vec<Sel> = (0..models.names.repr.len() as Sel).collect();
	sequences(engine, "all word classes", &all, 0, 2, emit);
	if !engine.quick() {
		sequences(engine, "the word classes of the grammar", &alphabet(models), 3, 3, emit);
	}
	let (k, cap) = if engine.quick() { (2, 2000) } else { (3, 20000) };
	let (seeds, _) = derivations(models, &all_rules(g), k, cap);
	engine.explore(
		&format!("derivations of every rule with up to {k} deviations"),
		seeds.len(),
		|index, worker| emit(&seeds[index], worker),
	);
	let (seeds, _) = derivations(models, &all_rules(g), if engine.quick() { 0 } else { 1 }, cap);
	around(engine, "shortest derivations of every rule", &seeds, &alphabet(models), usize::MAX, emit);
	for area in AREAS {
		for theme in area.themes {
			let theme_sels = sels(models, theme);
			sequences(engine, &theme.join(" "), &theme_sels, 3, if engine.quick() { 4 } else { 5 } - weight, emit);
		}
	}
	run_long(engine, &all_rules(g), emit);
	let examples = example_tokens(models);
	engine.explore("example texts", examples.len(), |index, worker| emit(&examples[index], worker));
	if !engine.quick() {
		around(engine, "example texts", &examples, &sels(models, &["Ui", "Bu", "Ku", "Gismu", "Koha"]), 1500, emit);
	}
}

fn run_c14(engine: &Engine<'_>) {
	run_general(engine, &tokens, 0);
}

fn run_c15(engine: &Engine<'_>) {
	let full = if engine.quick() { 5 } else { 8 };
	run_general(
		engine,
		&move |seq, worker| {
			let n = seq.len().min(64);
			let all = if n == 64 { u64::MAX } else { (1 << n) - 1 };
			if n <= full {
				for mask in 0..=all {
					worker.case(Case::Marked(seq.to_vec(), mask));
				}
			} else {
				worker.case(Case::Marked(seq.to_vec(), 0));
				for i in 0..n {
					worker.case(Case::Marked(seq.to_vec(), 1 << i));
				}
			}
		},
		1,
	);
}

fn run_c16(engine: &Engine<'_>) {
	run_general(engine, &tokens, 0);
}

fn run_c26(engine: &Engine<'_>) {
	engine.explore("pairs of failures merged", FAILURES as usize, |index, worker| {
		for other in 0..FAILURES {
			worker.case(Case::Numbers(vec![index as u32, other]));
		}
	});
	run_general(engine, &tokens, 0);
	let models = engine.models;
	let (seeds, _) = derivations(models, &all_rules(&models.grammar), 2, 2000);
	engine.explore("beginnings of derivations with up to 2 deviations", seeds.len(), |index, worker| {
		for i in 1..seeds[index].len() {
			tokens(&seeds[index][..i], worker);
		}
	});
	let wrong = sels(models, &["Ku", "Bu", "UnknownCmavo", "Gi"]);
	let limit = if engine.quick() { 4000 } else { usize::MAX };
	engine.explore("derivations with a wrong word", seeds.len().min(limit), |index, worker| {
		for i in 0..=seeds[index].len() {
			for &sel in &wrong {
				let mut seq = seeds[index][..i].to_vec();
				seq.push(sel);
				tokens(&seq, worker);
				seq.extend_from_slice(&seeds[index][i..]);
				tokens(&seq, worker);
			}
		}
	});
}

fn run_c27(engine: &Engine<'_>) {
	let models = engine.models;
	let g = &models.grammar;
	let (seeds, _) = derivations(models, &all_rules(g), if engine.quick() { 1 } else { 2 }, 2000);
	engine.explore("derivations on their own", seeds.len(), |index, worker| {
		worker.case(Case::Batch(vec![seeds[index].clone()]));
	});
	let (few, _) = derivations(models, &all_rules(g), 0, 2000);
	engine.explore("pairs of shortest derivations", few.len() * few.len(), |index, worker| {
		worker.case(Case::Batch(vec![few[index / few.len()].clone(), few[index % few.len()].clone()]));
	});
	let mut mixed: Vec<Vec<Sel>> = few.iter().step_by(7).cloned().collect();
	for bad in [&["Ku"][..], &["Koha", "Bu", "Gi"], &["Lu", "Koha", "Lihu", "Lihu"], &[]] {
		mixed.push(sels(models, bad));
	}
	let n = mixed.len();
	engine.explore("triples of texts", n * n * n, |index, worker| {
		worker.case(Case::Batch(vec![
			mixed[index % n].clone(),
			mixed[index / n % n].clone(),
			mixed[index / n / n].clone(),
		]));
	});
	let examples = example_tokens(models);
	engine.explore("example texts", examples.len() - 1, |index, worker| {
		worker.case(Case::Batch(vec![examples[index].clone(), examples[index + 1].clone()]));
	});
	let all: Vec<Sel> = (0..models.names.repr.len() as Sel).collect();
	let koha = sels(models, &["Koha"])[0];
	engine.explore("every word class after a sumti", all.len(), |index, worker| {
		worker.case(Case::Batch(vec![vec![koha, all[index]], vec![all[index]], vec![all[index], koha]]));
	});
	for area in AREAS {
		for theme in area.themes {
			let theme_sels = sels(models, theme);
			sequences(engine, &theme.join(" "), &theme_sels, 3, if engine.quick() { 3 } else { 4 }, &|seq, worker| {
				worker.case(Case::Batch(vec![seq.to_vec()]));
			});
		}
	}
}

pub const PROPS: &[Prop] = &[
	Prop { id: "C01", check: totality, run: run_c01, heavy: true },
	Prop { id: "C02", check: tiling, run: run_c02, heavy: false },
	Prop { id: "C03", check: separators, run: run_c03, heavy: true },
	Prop { id: "C04", check: commas, run: run_c04, heavy: true },
	Prop { id: "C05", check: boundaries, run: run_c05, heavy: false },
	Prop { id: "C06", check: classes, run: run_c06, heavy: false },
	Prop { id: "C07", check: listed, run: run_c07, heavy: false },
	Prop { id: "C08", check: histories, run: run_c08, heavy: false },
	Prop { id: "C09", check: contracts, run: run_c09, heavy: true },
	Prop { id: "C10", check: lexing, run: run_c10, heavy: false },
	Prop { id: "C11", check: endings, run: run_c11, heavy: false },
	Prop { id: "C12", check: tokens_are_words, run: run_c12, heavy: true },
	Prop { id: "C13", check: naming, run: run_c13, heavy: false },
	Prop { id: "C14", check: leaves, run: run_c14, heavy: false },
	Prop { id: "C15", check: extents, run: run_c15, heavy: false },
	Prop { id: "C16", check: acceptance, run: run_c16, heavy: false },
	Prop { id: "C17", check: brackets, run: run_c17, heavy: false },
	Prop { id: "C18", check: brackets, run: run_c18, heavy: false },
	Prop { id: "C19", check: brackets, run: run_c19, heavy: false },
	Prop { id: "C20", check: brackets, run: run_c20, heavy: false },
	Prop { id: "C21", check: brackets, run: run_c21, heavy: false },
	Prop { id: "C22", check: brackets, run: run_c22, heavy: false },
	Prop { id: "C23", check: brackets, run: run_c23, heavy: false },
	Prop { id: "C24", check: brackets, run: run_c24, heavy: false },
	Prop { id: "C25", check: constructs, run: run_c16, heavy: false },
	Prop { id: "C26", check: errors, run: run_c26, heavy: false },
	Prop { id: "C27", check: determinism, run: run_c27, heavy: false },
	Prop { id: "C28", check: spans, run: run_c28, heavy: false },
];

pub fn check(models: &Models, prop: &Prop, tier: Tier) -> i32 {
	let code = crate::engine::supervise(models, prop, tier);
	if code == 0 {
		crate::engine::known_findings(prop);
	}
	code
}

pub fn info(models: &Models) -> i32 {
	let g = &models.grammar;
	println!("rules {} alphabet {}", g.rules.len(), g.alphabet.len());
	for k in 0..=3 {
		let started = std::time::Instant::now();
		let (all, capped) = derivations(models, &all_rules(g), k, 20000);
		println!("k={k}: {} derivations, capped {capped}, longest {} {:?}", all.len(), all.last().unwrap().len(), started.elapsed());
	}
	for (id, rule) in g.rules.iter().enumerate() {
		let counts: Vec<String> = (1..=4).map(|k| { let (all, capped) = derivations(models, &[id as u16], k, 20000); format!("{}{}", all.len(), if capped {"+"} else {""}) }).collect();
		println!("{id} {} {:?}", rule.name, counts);
	}
	0
}

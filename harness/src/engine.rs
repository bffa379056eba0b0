//! The explorer: runs every case of a bounded space on eight threads, remembers the case each thread is working on in
//! a file that survives a crash, and supervises the process that does the work.

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use crate::case::Case;
use crate::props::{Models, Prop, Scratch};

pub const THREADS: usize = 8;
const STACK: usize = 256 << 20;
const SLOT: usize = 1 << 20;
/// A single case normally takes microseconds. One that takes this long is a hang.
const HANG: Duration = Duration::from_secs(60);
const CONFIRM: Duration = Duration::from_secs(45);
const MEMORY_LIMIT: u64 = 16 << 30;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier {
	Quick,
	Thorough,
}

extern "C" {
	fn prctl(option: i32, arg: u64, ...) -> i32;
	fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut u8;
}

/// End this process when the process that started it ends.
pub fn end_with_parent() {
	unsafe {
		prctl(1, 9);
	}
}

/// A file mapped into memory, with one slot per thread: start time, length, bytes of the case.
struct Slots {
	base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
	fn open(path: &Path) -> Self {
		use std::os::fd::AsRawFd as _;
		let file = std::fs::OpenOptions::new()
			.read(true)
			.write(true)
			.create(true)
			.truncate(false)
			.open(path)
			.unwrap();
		file.set_len((SLOT * THREADS) as u64).unwrap();
		let base = unsafe { mmap(std::ptr::null_mut(), SLOT * THREADS, 3, 1, file.as_raw_fd(), 0) };
		assert!(base as isize != -1, "mmap failed");
		Self { base }
	}
	fn header(&self, slot: usize) -> (&AtomicU64, &AtomicU64) {
		unsafe {
			let base = self.base.add(slot * SLOT);
			(&*base.cast::<AtomicU64>(), &*base.add(8).cast::<AtomicU64>())
		}
	}
	fn begin(&self, slot: usize, now: u64, bytes: &[u8]) {
		let (start, len) = self.header(slot);
		let n = bytes.len().min(SLOT - 16);
		unsafe {
			std::ptr::copy_nonoverlapping(bytes.as_ptr(), self.base.add(slot * SLOT + 16), n);
		}
		len.store(n as u64, Ordering::Relaxed);
		start.store(now + 1, Ordering::Release);
	}
	fn end(&self, slot: usize) {
		self.header(slot).0.store(0, Ordering::Release);
	}
	fn current(&self, slot: usize) -> Option<(u64, Vec<u8>)> {
		let (start, len) = self.header(slot);
		let start = start.load(Ordering::Acquire);
		if start == 0 {
			return None;
		}
		let n = len.load(Ordering::Relaxed) as usize;
		let bytes = unsafe { std::slice::from_raw_parts(self.base.add(slot * SLOT + 16), n) };
		Some((start - 1, bytes.to_vec()))
	}
}

#[derive(Debug, Default, Clone)]
pub struct Phase {
	pub name: String,
	pub cases: u64,
	pub complete: bool,
	pub note: String,
}

pub struct Engine<'e> {
	pub models: &'e Models,
	pub prop: &'e Prop,
	pub tier: Tier,
	slots: Slots,
	begun: Instant,
	stop: AtomicBool,
	violation: Mutex<Option<(Case, String)>>,
	seen: Vec<Mutex<HashSet<u64>>>,
	outcomes: Mutex<HashSet<u64>>,
	samples: Mutex<Vec<String>>,
	cases: AtomicU64,
	transitions: AtomicU64,
	validated: AtomicU64,
	phases: Mutex<Vec<Phase>>,
	deadline: Duration,
}

pub struct Worker<'w> {
	engine: &'w Engine<'w>,
	slot: usize,
	pub scratch: Scratch<'w>,
	bytes: Vec<u8>,
	cases: u64,
	transitions: u64,
	validated: u64,
	outcomes: HashSet<u64>,
	slowest: Option<(Duration, String)>,
}

pub fn hash(value: &impl Hash) -> u64 {
	// FxHash-like; the default hasher is too slow here
	struct Fx(u64);
	impl Hasher for Fx {
		fn finish(&self) -> u64 {
			let mut x = self.0;
			x ^= x >> 32;
			x = x.wrapping_mul(0x9fb2_1c65_1e98_df25);
			x ^ x >> 29
		}
		fn write(&mut self, bytes: &[u8]) {
			for chunk in bytes.chunks(8) {
				let mut word = [0; 8];
				word[..chunk.len()].copy_from_slice(chunk);
				self.write_u64(u64::from_le_bytes(word) ^ (chunk.len() as u64) << 59);
			}
		}
		fn write_u64(&mut self, word: u64) {
			self.0 = (self.0.rotate_left(23) ^ word).wrapping_mul(0x517c_c1b7_2722_0a95);
		}
		fn write_u8(&mut self, byte: u8) {
			self.write_u64(byte.into());
		}
		fn write_u32(&mut self, word: u32) {
			self.write_u64(word.into());
		}
		fn write_usize(&mut self, word: usize) {
			self.write_u64(word as u64);
		}
	}
	let mut hasher = Fx(0x1234_5678_9abc_def1);
	value.hash(&mut hasher);
	hasher.finish()
}

impl Worker<'_> {
	pub fn stopped(&self) -> bool {
		self.engine.stop.load(Ordering::Relaxed)
	}

	pub fn tier(&self) -> Tier {
		self.engine.tier
	}

	/// The limit for the consonants in one stretch of text, see `spaces::put`.
	pub fn weight(&self) -> usize {
		let weight = if self.tier() == Tier::Quick { 6 } else { 7 };
		weight - usize::from(self.engine.prop.heavy)
	}

	/// Check one case, unless it was checked before.
	pub fn case(&mut self, case: Case) {
		if self.stopped() {
			return;
		}
		self.bytes.clear();
		case.encode(&mut self.bytes);
		let key = hash(&self.bytes);
		if !self.engine.seen[key as usize % self.engine.seen.len()]
			.lock()
			.unwrap()
			.insert(key)
		{
			return;
		}
		self.engine.slots.begin(
			self.slot,
			self.engine.begun.elapsed().as_millis() as u64,
			&self.bytes,
		);
		let started = Instant::now();
		let result = (self.engine.prop.check)(&case, &mut self.scratch);
		let taken = started.elapsed();
		if self.slowest.as_ref().map_or(true, |(time, _)| taken > *time) && taken > Duration::from_millis(2) {
			self.slowest = Some((taken, case.show(self.engine.models)));
		}
		self.engine.slots.end(self.slot);
		self.cases += 1;
		self.transitions += self.scratch.take_steps();
		if self.cases.is_power_of_two() && self.slot == 0 {
			let mut samples = self.engine.samples.lock().unwrap();
			if samples.len() < 24 {
				samples.push(case.show(self.engine.models));
			}
		}
		match result {
			Ok(outcome) => {
				self.validated += 1;
				if self.outcomes.len() < 1 << 16 {
					self.outcomes.insert(outcome);
				}
			}
			Err(message) => {
				self.engine.stop.store(true, Ordering::Relaxed);
				let mut violation = self.engine.violation.lock().unwrap();
				let better = match &*violation {
					Some((old, _)) => case.size() < old.size(),
					None => true,
				};
				if better {
					*violation = Some((case, message));
				}
			}
		}
	}
}

impl<'e> Engine<'e> {
	/// Run `f` for every index below `n`, on all threads.
	pub fn explore(&self, name: &str, n: usize, f: impl Fn(usize, &mut Worker<'_>) + Sync) {
		if self.stop.load(Ordering::Relaxed) {
			return;
		}
		let next = AtomicUsize::new(0);
		let before = self.cases.load(Ordering::Relaxed);
		let started = Instant::now();
		let block = (n / (THREADS * 64)).clamp(1, 256);
		let cut = AtomicBool::new(false);
		let slowest = Mutex::new(None::<(Duration, String)>);
		std::thread::scope(|scope| {
			for slot in 0..THREADS {
				let (next, f, cut, slowest) = (&next, &f, &cut, &slowest);
				std::thread::Builder::new()
					.stack_size(STACK)
					.spawn_scoped(scope, move || {
						let mut worker = Worker {
							engine: self,
							slot,
							scratch: Scratch::new(self.models),
							bytes: Vec::new(),
							cases: 0,
							transitions: 0,
							validated: 0,
							outcomes: HashSet::new(),
							slowest: None,
						};
						'work: loop {
							let start = next.fetch_add(block, Ordering::Relaxed);
							if start >= n {
								break;
							}
							for index in start..(start + block).min(n) {
								if self.stop.load(Ordering::Relaxed) {
									break 'work;
								}
								if self.begun.elapsed() > self.deadline {
									cut.store(true, Ordering::Relaxed);
									break 'work;
								}
								f(index, &mut worker);
							}
						}
						self.cases.fetch_add(worker.cases, Ordering::Relaxed);
						self.transitions.fetch_add(worker.transitions, Ordering::Relaxed);
						self.validated.fetch_add(worker.validated, Ordering::Relaxed);
						self.outcomes.lock().unwrap().extend(worker.outcomes);
						if let Some(found) = worker.slowest {
							let mut slowest = slowest.lock().unwrap();
							if slowest.as_ref().map_or(true, |other| found.0 > other.0) {
								*slowest = Some(found);
							}
						}
					})
					.unwrap();
			}
		});
		if std::env::var_os("MC_SLOW").is_some() {
			println!("{name}: {:.1} s, slowest {:?}", started.elapsed().as_secs_f64(), slowest.lock().unwrap());
		}
		let complete = !cut.load(Ordering::Relaxed) && !self.stop.load(Ordering::Relaxed);
		self.phases.lock().unwrap().push(Phase {
			name: name.to_owned(),
			cases: self.cases.load(Ordering::Relaxed) - before,
			complete,
			note: format!("{n} blocks of work in {:.1} s", started.elapsed().as_secs_f64()),
		});
	}

	/// Check a list of cases.
	pub fn cases(&self, name: &str, cases: Vec<Case>) {
		self.explore(name, cases.len(), |index, worker| worker.case(cases[index].clone()));
	}

	pub fn quick(&self) -> bool {
		self.tier == Tier::Quick
	}
}

// --- processes ---

pub struct Outcome {
	pub violation: Option<(Case, String)>,
}

fn json_string(text: &str) -> String {
	let mut out = String::from("\"");
	for ch in text.chars() {
		match ch {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			'\n' => out.push_str("\\n"),
			'\r' => out.push_str("\\r"),
			'\t' => out.push_str("\\t"),
			ch if (ch as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", ch as u32)),
			ch => out.push(ch),
		}
	}
	out.push('"');
	out
}

pub struct Paths {
	pub verif: PathBuf,
	pub run: PathBuf,
}

impl Paths {
	pub fn new() -> Self {
		let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".to_owned()));
		let run = verif.join("run");
		std::fs::create_dir_all(&run).unwrap();
		std::fs::create_dir_all(verif.join("evidence")).unwrap();
		Self { verif, run }
	}
	fn slots(&self, id: &str) -> PathBuf {
		self.run.join(format!("{id}.slots"))
	}
	fn replay(&self, id: &str) -> PathBuf {
		self.run.join(format!("{id}.replay"))
	}
	fn evidence(&self, id: &str) -> PathBuf {
		self.verif.join("evidence").join(format!("{id}.json"))
	}
}

fn hex(bytes: &[u8]) -> String {
	bytes.iter().map(|byte| format!("{byte:02x}")).collect()
}

fn unhex(text: &str) -> Vec<u8> {
	(0..text.len() / 2)
		.map(|i| u8::from_str_radix(&text[2 * i..2 * i + 2], 16).unwrap())
		.collect()
}

pub fn report(paths: &Paths, models: &Models, prop: &Prop, case: &Case, message: &str) {
	let path = paths.replay(prop.id);
	let mut bytes = Vec::new();
	case.encode(&mut bytes);
	let mut text = String::new();
	text += &format!("property: {} ({})\n", prop.id, prop.about()[0]);
	text += &format!("case: {}\n", hex(&bytes));
	text += &format!("input: {}\n", case.show(models));
	text += &format!("what: {message}\n");
	text += &format!("run again: bash /verif/replay.sh {}\n", path.display());
	std::fs::write(&path, text).unwrap();
	println!("{}: {}", case.show(models), message);
	println!("VIOLATION property={} replay={}", prop.id, path.display());
}

pub fn read_replay(path: &Path) -> (String, Case) {
	let text = std::fs::read_to_string(path).unwrap();
	let field = |name: &str| {
		text
			.lines()
			.find_map(|line| line.strip_prefix(name))
			.unwrap_or_else(|| panic!("no {name:?} in {}", path.display()))
			.trim()
			.to_owned()
	};
	let id = field("property:");
	let id = id.split_whitespace().next().unwrap().to_owned();
	(id, Case::decode(&unhex(&field("case:"))))
}

fn seed() -> u64 {
	std::env::var("VERIF_SEED").ok().and_then(|seed| seed.parse().ok()).unwrap_or(1)
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
	paths: &Paths,
	prop: &Prop,
	tier: Tier,
	states: u64,
	transitions: u64,
	validated: u64,
	outcomes: u64,
	samples: &[String],
	phases: &[Phase],
	wall: f64,
	violations: u32,
) {
	let list = |items: Vec<String>| format!("[{}]", items.join(", "));
	let text = format!(
		"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {validated},\n  \"distinct_outcomes\": {outcomes},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"phases\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
		json_string(prop.id),
		json_string(if tier == Tier::Quick { "quick" } else { "thorough" }),
		seed(),
		!phases.is_empty() && phases.iter().all(|phase| phase.complete),
		json_string("states: distinct inputs (texts, token sequences, histories) of the bounded space; transitions: steps the reference model took on them (rule applications, words, calls); traces_validated_against_impl: inputs whose model run was compared with the library without a difference"),
		list(phases
			.iter()
			.map(|phase| format!(
				"{{\"space\": {}, \"new_inputs\": {}, \"enumerated_completely\": {}, \"note\": {}}}",
				json_string(&phase.name), phase.cases, phase.complete, json_string(&phase.note)
			))
			.collect()),
		list(samples.iter().map(|sample| json_string(sample)).collect()),
		list(vec![json_string(prop.about()[2]), json_string(&format!("nothing is claimed beyond these bounds (quick, thorough in parentheses): {}", prop.about()[1]))]),
	);
	std::fs::write(paths.evidence(prop.id), text).unwrap();
}

/// The process that explores. Exit code 0 or 1.
pub fn worker(models: &Models, prop: &Prop, tier: Tier) -> i32 {
	let paths = Paths::new();
	crate::imp::install_hook();
	let deadline = match tier {
		Tier::Quick => Duration::from_secs(420),
		Tier::Thorough => Duration::from_secs(3 * 3600),
	};
	let engine = Engine {
		models,
		prop,
		tier,
		slots: Slots::open(&paths.slots(prop.id)),
		begun: Instant::now(),
		stop: AtomicBool::new(false),
		violation: Mutex::new(None),
		seen: (0..256).map(|_| Mutex::new(HashSet::new())).collect(),
		outcomes: Mutex::new(HashSet::new()),
		samples: Mutex::new(vec![]),
		cases: AtomicU64::new(0),
		transitions: AtomicU64::new(0),
		validated: AtomicU64::new(0),
		phases: Mutex::new(vec![]),
		deadline,
	};
	for slot in 0..THREADS {
		engine.slots.end(slot);
	}
	let finished = AtomicBool::new(false);
	std::thread::scope(|scope| {
		scope.spawn(|| {
			while !finished.load(Ordering::Relaxed) {
				std::thread::sleep(Duration::from_millis(200));
				let now = engine.begun.elapsed().as_millis() as u64;
				for slot in 0..THREADS {
					if let Some((start, _)) = engine.slots.current(slot) {
						if now.saturating_sub(start) > HANG.as_millis() as u64 {
							println!("a case is running for too long");
							let _ = std::io::stdout().flush();
							std::process::exit(77);
						}
					}
				}
				let rss = std::fs::read_to_string("/proc/self/statm")
					.ok()
					.and_then(|text| text.split_whitespace().nth(1).and_then(|pages| pages.parse::<u64>().ok()))
					.unwrap_or(0)
					* 4096;
				if rss > MEMORY_LIMIT {
					println!("using {} MB of memory", rss >> 20);
					let _ = std::io::stdout().flush();
					std::process::exit(78);
				}
			}
		});
		std::thread::Builder::new()
			.stack_size(STACK)
			.spawn_scoped(scope, || {
				(prop.run)(&engine);
				finished.store(true, Ordering::Relaxed);
			})
			.unwrap()
			.join()
			.unwrap_or_else(|_| std::process::exit(3));
	});
	let violation = engine.violation.lock().unwrap().take();
	let wall = engine.begun.elapsed().as_secs_f64();
	let states: u64 = engine.seen.iter().map(|set| set.lock().unwrap().len() as u64).sum();
	let phases = engine.phases.lock().unwrap().clone();
	write_evidence(
		&paths,
		prop,
		tier,
		states,
		engine.transitions.load(Ordering::Relaxed),
		engine.validated.load(Ordering::Relaxed),
		engine.outcomes.lock().unwrap().len() as u64,
		&engine.samples.lock().unwrap(),
		&phases,
		wall,
		u32::from(violation.is_some()),
	);
	for phase in phases.iter().filter(|_| std::env::var_os("MC_SLOW").is_some()) {
		println!(
			"{}: {} new inputs{} ({})",
			phase.name,
			phase.cases,
			if phase.complete { "" } else { ", cut short" },
			phase.note
		);
	}
	println!(
		"{}: {} states, {} transitions, {} traces compared, {} outcomes, {:.1} s",
		prop.id,
		states,
		engine.transitions.load(Ordering::Relaxed),
		engine.validated.load(Ordering::Relaxed),
		engine.outcomes.lock().unwrap().len(),
		wall
	);
	if let Some((case, message)) = violation {
		let (case, message) = shrink(models, prop, case, message);
		report(&paths, models, prop, &case, &message);
		return 1;
	}
	0
}

fn shrink(models: &Models, prop: &Prop, case: Case, message: String) -> (Case, String) {
	let mut best = (case, message);
	let started = Instant::now();
	std::thread::scope(|scope| {
		std::thread::Builder::new()
			.stack_size(STACK)
			.spawn_scoped(scope, || {
				let mut scratch = Scratch::new(models);
				'again: loop {
					for smaller in best.0.smaller() {
						if started.elapsed() > Duration::from_secs(5) {
							return;
						}
						if let Err(message) = (prop.check)(&smaller, &mut scratch) {
							best = (smaller, message);
							continue 'again;
						}
					}
					return;
				}
			})
			.unwrap()
			.join()
			.unwrap();
	});
	best
}

/// Check a single case in this process. Exit code 0 or 1.
pub fn single(models: &Models, prop: &Prop, case: &Case, quiet: bool) -> i32 {
	crate::imp::install_hook();
	let paths = Paths::new();
	let stack = std::env::var("MC_STACK").ok().and_then(|size| size.parse().ok()).unwrap_or(STACK);
	let result = std::thread::scope(|scope| {
		std::thread::Builder::new()
			.stack_size(stack)
			.spawn_scoped(scope, || (prop.check)(case, &mut Scratch::new(models)))
			.unwrap()
			.join()
	});
	match result {
		Ok(Ok(_)) => {
			if !quiet {
				println!("{}: the property holds on this input", case.show(models));
			}
			0
		}
		Ok(Err(message)) => {
			report(&paths, models, prop, case, &message);
			1
		}
		Err(_) => 3,
	}
}

fn wait(child: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
	let started = Instant::now();
	loop {
		if let Some(status) = child.try_wait().unwrap() {
			return Some(status);
		}
		if started.elapsed() > limit {
			let _ = child.kill();
			let _ = child.wait();
			return None;
		}
		std::thread::sleep(Duration::from_millis(20));
	}
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Fate {
	Holds,
	Violated,
	Crash(String),
	Hang,
	Broken(String),
}

/// Check a single case in a process of its own.
pub fn isolated(prop: &Prop, case: &Case, limit: Duration, quiet: bool, stack: usize) -> Fate {
	let mut bytes = Vec::new();
	case.encode(&mut bytes);
	let paths = Paths::new();
	let file = paths.run.join(format!("{}.one.{:016x}", prop.id, hash(&bytes)));
	std::fs::write(&file, hex(&bytes)).unwrap();
	let mut child = std::process::Command::new(std::env::current_exe().unwrap())
		.args(["one", prop.id, file.to_str().unwrap()])
		.env("MC_STACK", stack.to_string())
		.args(quiet.then_some("quiet"))
		.stderr(std::process::Stdio::null())
		.spawn()
		.unwrap();
	let status = wait(&mut child, limit);
	let _ = std::fs::remove_file(&file);
	match status {
		None => Fate::Hang,
		Some(status) => match status.code() {
			Some(0) => Fate::Holds,
			Some(1) => Fate::Violated,
			Some(code) => Fate::Broken(format!("exit code {code}")),
			None => Fate::Crash(format!("{status}")),
		},
	}
}

pub fn load_one(path: &str) -> Case {
	Case::decode(&unhex(std::fs::read_to_string(path).unwrap().trim()))
}

/// Run the worker in a child process and judge abnormal ends.
pub fn supervise(models: &Models, prop: &Prop, tier: Tier) -> i32 {
	let paths = Paths::new();
	let started = Instant::now();
	let _ = std::fs::remove_file(paths.slots(prop.id));
	let _ = std::fs::remove_file(paths.evidence(prop.id));
	let mut child = std::process::Command::new(std::env::current_exe().unwrap())
		.args(["worker", prop.id, if tier == Tier::Quick { "quick" } else { "thorough" }])
		.spawn()
		.unwrap();
	let limit = match tier {
		Tier::Quick => Duration::from_secs(600),
		Tier::Thorough => Duration::from_secs(4 * 3600),
	};
	let status = wait(&mut child, limit);
	let code = status.and_then(|status| status.code());
	if let Some(code @ (0 | 1)) = code {
		let _ = std::fs::remove_file(paths.slots(prop.id));
		return code;
	}
	println!("the exploring process ended abnormally ({status:?}); looking for the input");
	let slots = Slots::open(&paths.slots(prop.id));
	let mut suspects: Vec<(u64, Vec<u8>)> = (0..THREADS).filter_map(|slot| slots.current(slot)).collect();
	let _ = std::fs::remove_file(paths.slots(prop.id));
	suspects.sort(); // the one that has been running for the longest time first
	for (_, bytes) in suspects {
		let case = Case::decode(&bytes);
		let message = match isolated(prop, &case, CONFIRM, true, STACK) {
			Fate::Violated => None,
			Fate::Hang => Some(format!("no answer within {} s", CONFIRM.as_secs())),
			Fate::Crash(how) => Some(format!("the process is ended by the library ({how})")),
			Fate::Holds | Fate::Broken(_) => continue,
		};
		if let Some(message) = message {
			report(&paths, models, prop, &case, &message);
		}
		let phases = [Phase {
			name: "until the first violation".to_owned(),
			cases: 0,
			complete: false,
			note: "the exploring process did not survive".to_owned(),
		}];
		let sample = [case.show(models)];
		write_evidence(
			&paths,
			prop,
			tier,
			0,
			0,
			0,
			0,
			&sample,
			&phases,
			started.elapsed().as_secs_f64(),
			1,
		);
		return 1;
	}
	println!("no input reproduces it");
	2
}

/// Run the inputs in the list of known findings, each in a process of its own.
pub fn known_findings(prop: &Prop) {
	let paths = Paths::new();
	let Ok(list) = std::fs::read_to_string(paths.verif.join("known-findings.txt")) else {
		return;
	};
	let start = format!("known: property={} ", prop.id);
	let found: Vec<(bool, Case, String)> = list
		.lines()
		.filter_map(|line| line.strip_prefix(&start))
		.map(|line| {
			let [kind, input, what]: [&str; 3] = line.split(" | ").collect::<Vec<_>>().try_into().unwrap();
			let parts: Vec<&str> = input.split('"').collect();
			let n: usize = parts[2].trim_matches(|ch| " *+".contains(ch)).parse().unwrap();
			(
				kind == "stack",
				Case::Text(parts[1].repeat(n) + parts[3]),
				format!("{input}: {what}"),
			)
		})
		.collect();
	let lines: Vec<Option<String>> = std::thread::scope(|scope| {
		let handles: Vec<_> = found
			.iter()
			.map(|(stack, case, what)| {
				scope.spawn(move || {
					let stack = if *stack { 8 << 20 } else { STACK };
					match isolated(prop, case, Duration::from_secs(10), true, stack) {
						Fate::Holds => None,
						fate => Some(format!("KNOWN-FINDING: property={} {what} ({fate:?})", prop.id)),
					}
				})
			})
			.collect();
		handles.into_iter().map(|handle| handle.join().unwrap()).collect()
	});
	for line in lines.into_iter().flatten() {
		println!("{line}");
	}
}

static MODELS: OnceLock<Models> = OnceLock::new();

pub fn models() -> &'static Models {
	MODELS.get_or_init(Models::load)
}

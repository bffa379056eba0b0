mod case;
mod engine;
mod gen;
mod grammar;
mod imp;
mod morph;
mod props;
mod registry;
mod selmaho_table;
mod spaces;
mod text;

use engine::Tier;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let models = engine::models();
	let find = |id: &str| {
		registry::PROPS
			.iter()
			.find(|prop| prop.id == id)
			.unwrap_or_else(|| panic!("unknown property {id}"))
	};
	let tier = |name: &str| match name {
		"quick" => Tier::Quick,
		"thorough" => Tier::Thorough,
		_ => panic!("unknown tier {name}"),
	};
	let code = match args[0].as_str() {
		"check" => registry::check(models, find(&args[1]), tier(&args[2])),
		"worker" => {
			engine::end_with_parent();
			engine::worker(models, find(&args[1]), tier(&args[2]))
		}
		"one" => {
			engine::end_with_parent();
			engine::single(models, find(&args[1]), &engine::load_one(&args[2]), args.len() > 3)
		}
		"replay" => {
			let (id, case) = engine::read_replay(args[1].as_ref());
			engine::single(models, find(&id), &case, false)
		}
		"measure" => {
			engine::end_with_parent();
			imp::install_hook();
			registry::measure(models, args[1].parse().unwrap(), args[2].parse().unwrap());
			0
		}
		"measure-lists" => {
			engine::end_with_parent();
			imp::install_hook();
			registry::measure_lists(models, args[1].parse().unwrap(), args[2].parse().unwrap());
			0
		}
		"info" => registry::info(models),
		"list" => {
			for prop in registry::PROPS {
				println!("{}\t{}", prop.id, prop.about()[0]);
			}
			0
		}
		other => panic!("unknown command {other}"),
	};
	std::process::exit(code);
}

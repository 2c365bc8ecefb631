//! frqsim: the Frequency runtime on simulated nodes.
mod chain;
mod farm;
mod gen;
mod model;
mod observe;
mod ocw;
mod oracle;
mod profiles;
mod query;
mod upgrade;
mod refhandle;
mod rng;
mod runner;
mod seam;
mod unit;
mod users;
mod view;
mod world;

#[global_allocator]
static MEMORY: seam::Watched = seam::Watched;

fn main() {
	if std::env::var("PANICS").is_err() { std::panic::set_hook(Box::new(|_| ())); }
	let a: Vec<String> = std::env::args().collect();
	let code = std::thread::Builder::new()
		.stack_size(256 << 20)
		.spawn(move || match a.get(1).map(|s| s.as_str()) {
			Some("check") => runner::check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")),
			Some("replay") => runner::replay(&a[2]),
			Some("run") => runner::single(&a[2], a[3].parse().unwrap(), a.get(4).is_some()),
			Some("survey") => runner::survey(a[2].parse().unwrap(), a.get(3).map(|s| s.as_str())),
			_ => {
				eprintln!("frqsim check PROPERTY [quick|thorough] | replay FILE | run PROFILE SEED [trace] | survey RUNS [PROFILE]");
				2
			},
		})
		.unwrap()
		.join()
		.unwrap_or(2);
	std::process::exit(code);
}

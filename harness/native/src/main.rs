//! Monitors over the handle utilities: suffix generator, canonical form, character rules,
//! display-handle splitting. The oracles are written from the documentation, with 32-bit code
//! points throughout and their own XxHash64 / PCG32.
mod chars;
mod suffix;

fn main() {
	let prop = std::env::var("VERIF_PROP").unwrap_or_default();
	match prop.as_str() {
		"C12" => suffix::run(),
		"C13" => chars::canonical(),
		"C14" => chars::admitted(),
		p => {
			eprintln!("unknown property {p}");
			std::process::exit(2)
		},
	}
}

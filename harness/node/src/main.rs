//! Monitors over the parts of the node that run among stand-ins.
mod seal;

fn main() {
	let prop = std::env::var("VERIF_PROP").unwrap_or_default();
	match prop.as_str() {
		"C44" => seal::run(),
		p => {
			eprintln!("unknown property {p}");
			std::process::exit(2)
		},
	}
}

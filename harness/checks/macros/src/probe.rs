//! Runs one build-script helper in the environment it was started in.
fn main() {
	let a: Vec<String> = std::env::args().collect();
	match a[1].as_str() {
		"head" => hydra_dx_build_script_utils::rerun_if_git_head_changed(),
		"keys" => hydra_dx_build_script_utils::generate_cargo_keys(&a[2]).unwrap(),
		_ => std::process::exit(3),
	}
}

mod omnipool;
mod stable;
mod xyk;
mod pow;
mod misc;
mod total;
use pbt::Ctx;
fn main() {
	let id = std::env::args().nth(1).expect("property id");
	let mut c = Ctx::new(&id);
	match id.as_str() {
		"C01" => omnipool::c01(&mut c),
		"C02" => omnipool::c02(&mut c),
		"C03" => omnipool::c03(&mut c),
		"C04" => stable::c04(&mut c),
		"C05" => stable::c05(&mut c),
		"C06" => stable::c06(&mut c),
		"C07" => xyk::c07(&mut c),
		"C08" => pow::c08(&mut c),
		"C09" => pow::c09(&mut c),
		"C11" => misc::c11(&mut c),
		"C12" => misc::c12(&mut c),
		"C13" => misc::c13(&mut c),
		"C14" => misc::c14(&mut c),
		"C15" => misc::c15(&mut c),
		"C53" => total::c53(&mut c),
		_ => { eprintln!("unknown property {id}"); std::process::exit(2) }
	}
	std::process::exit(c.finish());
}

//! Stand-in: a marker that says which contract ran (`name:` and the input).
use fp_evm::*;
pub struct Modexp; impl Precompile for Modexp { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"Modexp:".as_slice(), h.input()].concat() }) } }

//! Stand-in: a marker that says which contract ran (`name:` and the input).
use fp_evm::*;
pub struct Bn128Add; impl Precompile for Bn128Add { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"Bn128Add:".as_slice(), h.input()].concat() }) } }
pub struct Bn128Mul; impl Precompile for Bn128Mul { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"Bn128Mul:".as_slice(), h.input()].concat() }) } }
pub struct Bn128Pairing; impl Precompile for Bn128Pairing { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"Bn128Pairing:".as_slice(), h.input()].concat() }) } }

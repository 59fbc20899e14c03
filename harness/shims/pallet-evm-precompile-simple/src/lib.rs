//! Stand-in: a marker that says which contract ran (`name:` and the input).
use fp_evm::*;
pub struct ECRecover; impl Precompile for ECRecover { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"ECRecover:".as_slice(), h.input()].concat() }) } }
pub struct Identity; impl Precompile for Identity { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"Identity:".as_slice(), h.input()].concat() }) } }
pub struct Ripemd160; impl Precompile for Ripemd160 { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"Ripemd160:".as_slice(), h.input()].concat() }) } }
pub struct Sha256; impl Precompile for Sha256 { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"Sha256:".as_slice(), h.input()].concat() }) } }

//! Stand-in: a marker that says which contract ran.
use fp_evm::*;
pub struct Dispatch<T>(std::marker::PhantomData<T>);
impl<T> Precompile for Dispatch<T> { fn execute(h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: [b"Dispatch:".as_slice(), h.input()].concat() }) } }

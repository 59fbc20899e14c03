use codec::Encode;
use sp_runtime::traits::Extrinsic;
use std::marker::PhantomData;
pub trait SendTransactionTypes<LocalCall> { type Extrinsic: Extrinsic<Call = Self::OverarchingCall> + Encode; type OverarchingCall: From<LocalCall> + Encode; }
pub struct SubmitTransaction<T: SendTransactionTypes<C>, C>(PhantomData<(T, C)>);
impl<T: SendTransactionTypes<C>, C> SubmitTransaction<T, C> {
	pub fn submit_transaction(call: T::OverarchingCall, s: Option<<T::Extrinsic as Extrinsic>::SignaturePayload>) -> Result<(), ()> { let x = T::Extrinsic::new(call, s).ok_or(())?; sp_io::offchain::submit_transaction(x.encode()) }
	pub fn submit_unsigned_transaction(call: T::OverarchingCall) -> Result<(), ()> { Self::submit_transaction(call, None) }
}

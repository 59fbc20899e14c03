//! Stand-in for `cumulus-pallet-parachain-system`: the hook interface and a settable view of the validation data.
use cumulus_primitives_core::PersistedValidationData;
pub trait OnSystemEvent { fn on_validation_data(data: &PersistedValidationData); fn on_validation_code_applied(); }
pub trait Config: frame_system::Config {}
std::thread_local! { static DATA: std::cell::RefCell<Option<PersistedValidationData>> = const { std::cell::RefCell::new(None) }; }
pub fn set_validation_data(d: Option<PersistedValidationData>) { DATA.with(|x| *x.borrow_mut() = d) }
pub struct Pallet<T>(std::marker::PhantomData<T>);
impl<T: Config> Pallet<T> { pub fn validation_data() -> Option<PersistedValidationData> { DATA.with(|x| x.borrow().clone()) } }

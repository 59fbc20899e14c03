//! Stand-in for substrate's `frame-support-procedural`: the macros the pallets of this repository use,
//! with the semantics they rely on (storage layers around dispatchables, error/event/call enums, ...).
use proc_macro::TokenStream;
mod misc;
mod nobound;
mod pallet;
mod runtime;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
	pallet::expand(syn::parse_macro_input!(item as syn::ItemMod)).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn construct_runtime(input: TokenStream) -> TokenStream {
	runtime::expand(syn::parse_macro_input!(input as runtime::Def)).into()
}
#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream { misc::transactional(item, false) }
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream { misc::transactional(item, true) }
#[proc_macro_attribute]
pub fn storage_alias(attr: TokenStream, item: TokenStream) -> TokenStream { misc::storage_alias(attr, item) }
/// Only the default-config form is used (by mocks): the impl is left as it is.
#[proc_macro_attribute]
pub fn derive_impl(_attr: TokenStream, item: TokenStream) -> TokenStream { misc::derive_impl(item) }

#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(i: TokenStream) -> TokenStream { nobound::clone(syn::parse_macro_input!(i as syn::DeriveInput)).into() }
#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(i: TokenStream) -> TokenStream { nobound::partial_eq(syn::parse_macro_input!(i as syn::DeriveInput)).into() }
#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(i: TokenStream) -> TokenStream { nobound::eq(syn::parse_macro_input!(i as syn::DeriveInput)).into() }
#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(i: TokenStream) -> TokenStream { nobound::debug(syn::parse_macro_input!(i as syn::DeriveInput), false).into() }
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn rdebug_no_bound(i: TokenStream) -> TokenStream { nobound::debug(syn::parse_macro_input!(i as syn::DeriveInput), false).into() }
#[proc_macro_derive(RuntimeDebug)]
pub fn rdebug(i: TokenStream) -> TokenStream { nobound::debug(syn::parse_macro_input!(i as syn::DeriveInput), true).into() }
#[proc_macro_derive(DefaultNoBound, attributes(default))]
pub fn default_no_bound(i: TokenStream) -> TokenStream { nobound::default(syn::parse_macro_input!(i as syn::DeriveInput)).into() }
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn pallet_error(i: TokenStream) -> TokenStream { nobound::pallet_error(syn::parse_macro_input!(i as syn::DeriveInput)).into() }

use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::*;

pub struct P {
	name: Ident,
	path: TokenStream,
	inst: Option<Ident>,
	index: usize,
}
pub struct Def {
	name: Ident,
	pallets: Vec<P>,
}
impl Parse for Def {
	fn parse(i: ParseStream) -> Result<Self> {
		let _: Visibility = i.parse()?;
		if i.peek(Token![enum]) {
			i.parse::<Token![enum]>()?;
		} else {
			i.parse::<Token![struct]>()?;
		}
		let name = i.parse()?;
		while !i.peek(token::Brace) {
			i.parse::<proc_macro2::TokenTree>()?;
		}
		let c;
		braced!(c in i);
		let mut pallets = vec![];
		let mut next = 0;
		while !c.is_empty() {
			let name: Ident = c.parse()?;
			c.parse::<Token![:]>()?;
			let mut path = quote!();
			let mut inst = None;
			if c.peek(Token![crate]) {
				c.parse::<Token![crate]>()?;
				path = quote!(crate);
			} else {
				let s: Ident = c.call(ext_ident)?;
				path.extend(quote!(#s));
			}
			while c.peek(Token![::]) {
				c.parse::<Token![::]>()?;
				if c.peek(Token![<]) {
					c.parse::<Token![<]>()?;
					inst = Some(c.parse()?);
					c.parse::<Token![>]>()?;
				} else if c.peek(token::Brace) {
					c.parse::<proc_macro2::TokenTree>()?;
				} else {
					let s: Ident = c.call(ext_ident)?;
					path.extend(quote!(::#s));
				}
			}
			while !c.is_empty() && !c.peek(Token![,]) && !c.peek(Token![=]) {
				c.parse::<proc_macro2::TokenTree>()?;
			}
			if c.peek(Token![=]) {
				c.parse::<Token![=]>()?;
				next = c.parse::<LitInt>()?.base10_parse()?;
			}
			pallets.push(P { name, path, inst, index: next });
			next += 1;
			if c.peek(Token![,]) {
				c.parse::<Token![,]>()?;
			}
		}
		Ok(Def { name, pallets })
	}
}
fn ext_ident(i: ParseStream) -> Result<Ident> { use syn::ext::IdentExt; Ident::parse_any(i) }

pub fn expand(d: Def) -> TokenStream {
	let rt = &d.name;
	let names: Vec<_> = d.pallets.iter().map(|p| &p.name).collect();
	let strs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
	let idx: Vec<_> = d.pallets.iter().map(|p| p.index).collect();
	let idx8: Vec<_> = d.pallets.iter().map(|p| p.index as u8).collect();
	let g: Vec<TokenStream> = d
		.pallets
		.iter()
		.map(|p| match &p.inst {
			Some(i) => quote!(#rt, ::frame_support::instances::#i),
			None => quote!(#rt),
		})
		.collect();
	let paths: Vec<_> = d.pallets.iter().map(|p| &p.path).collect();
	let sys = d.pallets.iter().position(|p| p.name == "System" || p.path.to_string().contains("system")).expect("System pallet");
	let sysname = names[sys];
	let onames: Vec<_> = d.pallets.iter().map(|p| format_ident!("{}", p.name)).collect();
	let non_sys: Vec<usize> = (0..names.len()).filter(|i| *i != sys).collect();
	let no: Vec<_> = non_sys.iter().map(|i| onames[*i].clone()).collect();
	let np: Vec<_> = non_sys.iter().map(|i| paths[*i]).collect();
	let ng: Vec<_> = non_sys.iter().map(|i| &g[*i]).collect();
	let nt: Vec<_> = non_sys.iter().map(|i| names[*i]).collect();
	quote!(
		#[derive(Clone, Copy, PartialEq, Eq, Debug, ::scale_info::TypeInfo)]
		pub struct #rt;
		#( pub type #names = #paths::Pallet<#g>; )*
		#[allow(unused)] pub type AllPalletsWithSystem = (#(#names,)*);
		#[allow(unused)] pub type AllPalletsWithoutSystem = (#(#nt,)*);

		#[derive(Clone, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode)]
		#[allow(non_camel_case_types)]
		pub enum RuntimeEvent { #( #[codec(index = #idx8)] #names(#paths::__rt::RtEvent<#g>) ),* }
		#(
			impl From<#paths::__rt::RtEvent<#g>> for RuntimeEvent { fn from(e: #paths::__rt::RtEvent<#g>) -> Self { RuntimeEvent::#names(e) } }
			impl TryFrom<RuntimeEvent> for #paths::__rt::RtEvent<#g> { type Error = (); #[allow(unreachable_patterns)] fn try_from(e: RuntimeEvent) -> Result<Self, ()> { match e { RuntimeEvent::#names(e) => Ok(e), _ => Err(()) } } }
		)*
		impl ::scale_info::TypeInfo for RuntimeEvent { type Identity = (); fn type_info() -> ::scale_info::Type { <() as ::scale_info::TypeInfo>::type_info() } }

		#[derive(Clone, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode)]
		#[allow(non_camel_case_types)]
		pub enum RuntimeCall { #( #[codec(index = #idx8)] #names(#paths::Call<#g>) ),* }
		#(
			impl From<#paths::Call<#g>> for RuntimeCall { fn from(e: #paths::Call<#g>) -> Self { RuntimeCall::#names(e) } }
			impl ::frame_support::traits::IsSubType<#paths::Call<#g>> for RuntimeCall { #[allow(unreachable_patterns)] fn is_sub_type(&self) -> Option<&#paths::Call<#g>> { match self { RuntimeCall::#names(e) => Some(e), _ => None } } }
		)*
		impl ::scale_info::TypeInfo for RuntimeCall { type Identity = (); fn type_info() -> ::scale_info::Type { <() as ::scale_info::TypeInfo>::type_info() } }
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { #( RuntimeCall::#names(c) => ::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c), )* } }
		}
		impl ::frame_support::traits::GetCallMetadata for RuntimeCall {
			fn get_module_names() -> &'static [&'static str] { &[#(#strs),*] }
			fn get_call_names(m: &str) -> &'static [&'static str] { match m { #( #strs => <#paths::Call<#g> as ::frame_support::traits::GetCallName>::get_call_names(), )* _ => &[] } }
			fn get_call_metadata(&self) -> ::frame_support::traits::CallMetadata { match self { #( RuntimeCall::#names(c) => ::frame_support::traits::CallMetadata { function_name: ::frame_support::traits::GetCallName::get_call_name(c), pallet_name: #strs }, )* } }
		}
		impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { match self { #( RuntimeCall::#names(c) => ::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin), )* } }
		}
		impl ::frame_support::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				if !::frame_support::traits::OriginTrait::filter_call(&origin, &self) {
					return Err(::frame_system::Error::<#rt>::CallFiltered.into());
				}
				::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}

		#[derive(Clone, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode, ::codec::MaxEncodedLen)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller { system(::frame_system::Origin<#rt>), #( #no(#np::__rt::RtOrigin<#ng>),)* Void(::frame_support::Never) }
		impl ::scale_info::TypeInfo for OriginCaller { type Identity = (); fn type_info() -> ::scale_info::Type { <() as ::scale_info::TypeInfo>::type_info() } }
		impl From<::frame_system::Origin<#rt>> for OriginCaller { fn from(o: ::frame_system::Origin<#rt>) -> Self { OriginCaller::system(o) } }
		impl ::frame_support::traits::CallerTrait<<#rt as ::frame_system::Config>::AccountId> for OriginCaller {
			fn into_system(self) -> Option<::frame_support::dispatch::RawOrigin<<#rt as ::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
			fn as_system_ref(&self) -> Option<&::frame_support::dispatch::RawOrigin<<#rt as ::frame_system::Config>::AccountId>> { match self { OriginCaller::system(x) => Some(x), _ => None } }
		}
		impl TryFrom<OriginCaller> for ::frame_system::Origin<#rt> { type Error = OriginCaller; fn try_from(x: OriginCaller) -> Result<Self, OriginCaller> { match x { OriginCaller::system(x) => Ok(x), o => Err(o) } } }

		#[derive(Clone, PartialEq, Eq)]
		pub struct RuntimeOrigin { pub caller: OriginCaller, filtered: bool }
		impl ::core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.debug_struct("Origin").field("caller", &self.caller).finish() } }
		impl ::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = <#rt as ::frame_system::Config>::AccountId;
			fn add_filter(&mut self, _: impl Fn(&Self::Call) -> bool + 'static) {}
			fn reset_filter(&mut self) {}
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller }
			fn filter_call(&self, c: &Self::Call) -> bool {
				match self.caller {
					OriginCaller::system(::frame_system::Origin::<#rt>::Root) => true,
					_ => <<#rt as ::frame_system::Config>::BaseCallFilter as ::frame_support::traits::Contains<RuntimeCall>>::contains(c),
				}
			}
			fn caller(&self) -> &Self::PalletsOrigin { &self.caller }
			fn into_caller(self) -> Self::PalletsOrigin { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self> { match f(self.caller) { Ok(r) => Ok(r), Err(c) => { self.caller = c; Err(self) } } }
			fn none() -> Self { ::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::frame_system::RawOrigin::Root.into() }
			fn signed(by: Self::AccountId) -> Self { ::frame_system::RawOrigin::Signed(by).into() }
			fn as_system_ref(&self) -> Option<&::frame_support::dispatch::RawOrigin<Self::AccountId>> { ::frame_support::traits::CallerTrait::as_system_ref(&self.caller) }
		}
		#[allow(unused)]
		impl RuntimeOrigin {
			pub fn none() -> Self { <Self as ::frame_support::traits::OriginTrait>::none() }
			pub fn root() -> Self { <Self as ::frame_support::traits::OriginTrait>::root() }
			pub fn signed(by: <#rt as ::frame_system::Config>::AccountId) -> Self { <Self as ::frame_support::traits::OriginTrait>::signed(by) }
		}
		impl From<::frame_system::Origin<#rt>> for RuntimeOrigin { fn from(x: ::frame_system::Origin<#rt>) -> Self { RuntimeOrigin { caller: OriginCaller::system(x), filtered: false } } }
		impl From<OriginCaller> for RuntimeOrigin { fn from(x: OriginCaller) -> Self { RuntimeOrigin { caller: x, filtered: false } } }
		impl From<Option<<#rt as ::frame_system::Config>::AccountId>> for RuntimeOrigin { fn from(x: Option<<#rt as ::frame_system::Config>::AccountId>) -> Self { ::frame_system::RawOrigin::from(x).into() } }
		impl From<RuntimeOrigin> for Result<::frame_system::Origin<#rt>, RuntimeOrigin> {
			fn from(x: RuntimeOrigin) -> Self { match x.caller { OriginCaller::system(r) => Ok(r), c => Err(RuntimeOrigin { caller: c, filtered: x.filtered }) } }
		}
		#(
			impl From<#np::__rt::RtOrigin<#ng>> for OriginCaller { fn from(o: #np::__rt::RtOrigin<#ng>) -> Self { OriginCaller::#no(o) } }
			impl From<#np::__rt::RtOrigin<#ng>> for RuntimeOrigin { fn from(o: #np::__rt::RtOrigin<#ng>) -> Self { OriginCaller::#no(o).into() } }
			impl From<RuntimeOrigin> for Result<#np::__rt::RtOrigin<#ng>, RuntimeOrigin> {
				fn from(x: RuntimeOrigin) -> Self { match x.caller { OriginCaller::#no(r) => Ok(r), c => Err(RuntimeOrigin { caller: c, filtered: x.filtered }) } }
			}
		)*

		pub struct PalletInfo;
		impl ::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> { let t = ::core::any::TypeId::of::<P>(); #( if t == ::core::any::TypeId::of::<#names>() { return Some(#idx) } )* None }
			fn name<P: 'static>() -> Option<&'static str> { let t = ::core::any::TypeId::of::<P>(); #( if t == ::core::any::TypeId::of::<#names>() { return Some(#strs) } )* None }
			fn module_name<P: 'static>() -> Option<&'static str> { Self::name::<P>() }
			fn crate_version<P: 'static>() -> Option<::frame_support::traits::CrateVersion> { Self::name::<P>().map(|_| Default::default()) }
		}
		#[derive(Clone, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode, ::scale_info::TypeInfo)]
		#[allow(unused)] pub enum RuntimeTask {}
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, ::codec::Encode, ::codec::Decode, ::codec::MaxEncodedLen, ::scale_info::TypeInfo)]
		#[allow(unused)] pub enum RuntimeHoldReason {}
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, ::codec::Encode, ::codec::Decode, ::codec::MaxEncodedLen, ::scale_info::TypeInfo)]
		#[allow(unused)] pub enum RuntimeFreezeReason {}
		const _: fn() = || { let _ = ::core::marker::PhantomData::<#sysname>; };
	)
}

use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::VisitMut;
use syn::*;

fn is_pallet(a: &Attribute, name: Option<&str>) -> bool {
	let p = a.path();
	p.segments.len() == 2 && p.segments[0].ident == "pallet" && name.map_or(true, |n| p.segments[1].ident == n)
}
fn take(attrs: &mut Vec<Attribute>, name: &str) -> Option<Attribute> {
	let i = attrs.iter().position(|a| is_pallet(a, Some(name)))?;
	Some(attrs.remove(i))
}
fn has(attrs: &[Attribute], name: &str) -> bool { attrs.iter().any(|a| is_pallet(a, Some(name))) }
fn attrs_of(i: &Item) -> &[Attribute] {
	match i {
		Item::Enum(x) => &x.attrs,
		Item::Struct(x) => &x.attrs,
		Item::Trait(x) => &x.attrs,
		Item::Type(x) => &x.attrs,
		Item::Impl(x) => &x.attrs,
		Item::Fn(x) => &x.attrs,
		Item::Use(x) => &x.attrs,
		_ => &[],
	}
}
struct Strip;
impl VisitMut for Strip {
	fn visit_item_trait_mut(&mut self, t: &mut ItemTrait) {
		t.attrs.retain(|a| !is_pallet(a, None));
		for i in t.items.iter_mut() {
			let at = match i {
				TraitItem::Const(x) => &mut x.attrs,
				TraitItem::Fn(x) => &mut x.attrs,
				TraitItem::Type(x) => &mut x.attrs,
				_ => continue,
			};
			at.retain(|a| !is_pallet(a, None));
		}
	}
	fn visit_item_impl_mut(&mut self, t: &mut ItemImpl) {
		t.attrs.retain(|a| !is_pallet(a, None));
		for i in t.items.iter_mut() {
			let at = match i {
				ImplItem::Const(x) => &mut x.attrs,
				ImplItem::Fn(x) => &mut x.attrs,
				ImplItem::Type(x) => &mut x.attrs,
				_ => continue,
			};
			at.retain(|a| !is_pallet(a, None));
		}
	}
}
fn infer_to_phantom(s: &mut ItemStruct) {
	let ps: Vec<Ident> = s.generics.type_params().map(|p| p.ident.clone()).collect();
	if let Fields::Unnamed(u) = &mut s.fields {
		for f in u.unnamed.iter_mut() {
			if let Type::Infer(_) = f.ty {
				f.ty = parse_quote!(::core::marker::PhantomData<(#(#ps,)*)>);
			}
		}
	}
}
fn doc(attrs: &[Attribute]) -> Vec<Attribute> { attrs.iter().filter(|a| a.path().is_ident("doc") || a.path().is_ident("cfg")).cloned().collect() }

pub fn expand(mut m: ItemMod) -> Result<TokenStream> {
	let (_, mut items) = m.content.take().ok_or_else(|| Error::new_spanned(&m.ident, "inline module expected"))?;
	let inst = items
		.iter()
		.find_map(|i| match i {
			Item::Struct(s) if has(&s.attrs, "pallet") => Some(s.generics.params.len() > 1),
			_ => None,
		})
		.ok_or_else(|| Error::new_spanned(&m.ident, "no #[pallet::pallet]"))?;
	let (ig, tg, dg, cfg): (TokenStream, TokenStream, TokenStream, TokenStream) = if inst {
		(quote!(<T: Config<I>, I: 'static>), quote!(<T, I>), quote!(<T: Config<I>, I: 'static = ()>), quote!(Config<I>))
	} else {
		(quote!(<T: Config>), quote!(<T>), quote!(<T: Config>), quote!(Config))
	};
	let igb = if inst { quote!(T: Config<I>, I: 'static) } else { quote!(T: Config) };
	let plain = if inst { quote!(T, I) } else { quote!(T) };
	let plain_def = if inst { quote!(T, I = ()) } else { quote!(T) };
	let phantom = if inst { quote!(::core::marker::PhantomData<(T, I)>) } else { quote!(::core::marker::PhantomData<T>) };

	let mut out: Vec<TokenStream> = vec![];
	let (mut has_hooks, mut has_event, mut event_generic, mut has_origin, mut origin_generic, mut has_call, mut storage_version) =
		(false, false, false, false, false, false, quote!(::frame_support::traits::StorageVersion::default()));
	let mut hooks_where = quote!();
	let mut call_where = quote!();
	let mut calls: Vec<(Ident, u8, Vec<(Ident, Type, bool)>, Expr)> = vec![];
	let mut cfg_event = false;

	for it in items.iter_mut() {
		let names: Vec<String> = attrs_of(it).iter().filter(|a| is_pallet(a, None)).map(|a| a.path().segments[1].ident.to_string()).collect();
		let is = |n: &str| names.iter().any(|x| x == n);
		match it {
			Item::Trait(t) if is("config") => {
				for i in t.items.iter() {
					if let TraitItem::Type(t) = i {
						if t.ident == "RuntimeEvent" {
							cfg_event = true;
						}
					}
				}
				Strip.visit_item_trait_mut(t);
			},
			Item::Struct(s) if is("pallet") => {
				if let Some(a) = take(&mut s.attrs, "storage_version") {
					let e: Expr = a.parse_args()?;
					storage_version = quote!(#e);
				}
				s.attrs.retain(|a| !is_pallet(a, None));
				infer_to_phantom(s);
				let n = &s.ident;
				out.push(quote!(
					impl<#plain> ::core::clone::Clone for #n #tg { fn clone(&self) -> Self { Self(Default::default()) } }
					impl<#plain> ::core::cmp::PartialEq for #n #tg { fn eq(&self, _: &Self) -> bool { true } }
					impl<#plain> ::core::cmp::Eq for #n #tg {}
					impl<#plain> ::core::fmt::Debug for #n #tg { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("Pallet") } }
				));
			},
			Item::Enum(e) if is("error") => {
				e.attrs.retain(|a| !is_pallet(a, None));
				let docs = e.variants.iter().map(|v| {
					let id = &v.ident;
					let s = id.to_string();
					let pat = match v.fields {
						Fields::Named(_) => quote!({ .. }),
						Fields::Unnamed(_) => quote!((..)),
						Fields::Unit => quote!(),
					};
					quote!(Self::#id #pat => #s,)
				});
				let docs: Vec<_> = docs.collect();
				let errg: Vec<Ident> = e.generics.type_params().map(|p| p.ident.clone()).collect();
				if errg.is_empty() {
					return Err(Error::new_spanned(&e.ident, "error without generics"));
				}
				for v in e.variants.iter_mut() {
					v.attrs = doc(&v.attrs);
				}
				e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#errg,)*)>, ::frame_support::Never)));
				e.attrs.push(parse_quote!(#[derive(::codec::Encode, ::codec::Decode)]));
				e.attrs.push(parse_quote!(#[codec(encode_bound())]));
				e.attrs.push(parse_quote!(#[codec(decode_bound())]));
				let n = &e.ident;
				out.push(quote!(
					impl #ig #n #tg {
						#[doc(hidden)] pub fn as_str(&self) -> &'static str { match self { #(#docs)* Self::__Ignore(..) => "__Ignore" } }
					}
					impl #ig ::core::fmt::Debug for #n #tg { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
					impl #ig From<#n #tg> for &'static str { fn from(e: #n #tg) -> &'static str { e.as_str() } }
					impl #ig From<#n #tg> for ::frame_support::sp_runtime::DispatchError {
						fn from(e: #n #tg) -> Self {
							let index = <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Pallet #tg>().expect("pallet is part of the runtime") as u8;
							let mut bytes = ::codec::Encode::encode(&e);
							bytes.resize(4, 0);
							::frame_support::sp_runtime::DispatchError::Module(::frame_support::sp_runtime::ModuleError {
								index, error: [bytes[0], bytes[1], bytes[2], bytes[3]], message: Some(e.as_str()),
							})
						}
					}
				));
			},
			Item::Enum(e) if is("event") => {
				has_event = true;
				let dep = take(&mut e.attrs, "generate_deposit");
				e.attrs.retain(|a| !is_pallet(a, None));
				let eg: Vec<Ident> = e.generics.type_params().map(|p| p.ident.clone()).collect();
				event_generic = !eg.is_empty();
				let mut docs = vec![];
				for v in e.variants.iter_mut() {
					v.attrs = doc(&v.attrs);
					docs.push(());
				}
				if event_generic {
					e.variants.push(parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#eg,)*)>, ::frame_support::Never)));
				}
				e.attrs.push(parse_quote!(#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::EqNoBound, ::frame_support::RuntimeDebugNoBound, ::codec::Encode, ::codec::Decode)]));
				e.attrs.push(parse_quote!(#[codec(encode_bound())]));
				e.attrs.push(parse_quote!(#[codec(decode_bound())]));
				let n = &e.ident;
				let (eig, etg, ew) = e.generics.split_for_impl();
				let ety = if event_generic { quote!(#n #etg) } else { quote!(#n) };
				out.push(quote!(
					impl #eig From<#n #etg> for () #ew { fn from(_: #n #etg) {} }
				));
				if let Some(a) = dep {
					let f: TokenStream = a.meta.require_list()?.tokens.clone();
					if cfg_event {
						out.push(quote!(
							impl #ig Pallet #tg {
								#[allow(dead_code)]
								#f(event: #ety) {
									let event = <<T as #cfg>::RuntimeEvent as From<#ety>>::from(event);
									let event = <<T as #cfg>::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
									::frame_system::Pallet::<T>::deposit_event(event)
								}
							}
						));
					} else {
						out.push(quote!(
							impl #ig Pallet #tg {
								#[allow(dead_code)]
								#f(event: impl Into<<T as ::frame_system::Config>::RuntimeEvent>) { ::frame_system::Pallet::<T>::deposit_event(event) }
							}
						));
					}
				}
			},
			Item::Type(t) if is("storage") => out.push(storage(t, &ig, &tg, &igb, &plain, inst)?),
			Item::Enum(_) | Item::Struct(_) | Item::Type(_) if is("origin") => {
				has_origin = true;
				match it {
					Item::Enum(e) => {
						e.attrs.retain(|a| !is_pallet(a, None));
						origin_generic = !e.generics.params.is_empty();
					},
					Item::Struct(e) => {
						e.attrs.retain(|a| !is_pallet(a, None));
						origin_generic = !e.generics.params.is_empty();
					},
					Item::Type(e) => {
						e.attrs.retain(|a| !is_pallet(a, None));
						origin_generic = !e.generics.params.is_empty();
					},
					_ => {},
				}
			},
			Item::Enum(e) if is("composite_enum") => {
				e.attrs.retain(|a| !is_pallet(a, None));
				e.attrs.push(parse_quote!(#[derive(Copy, Clone, Eq, PartialEq, ::codec::Encode, ::codec::Decode, ::codec::MaxEncodedLen, ::scale_info::TypeInfo, Debug)]));
			},
			Item::Struct(s) if is("genesis_config") => {
				s.attrs.retain(|a| !is_pallet(a, None));
				for f in s.fields.iter_mut() {
					f.attrs.retain(|a| !a.path().is_ident("serde"));
				}
				let n = &s.ident;
				let mut gens = s.generics.clone();
				if let Some(t) = gens.type_params_mut().next() {
					if inst { t.bounds.push(parse_quote!(Config<I>)); } else { t.bounds.push(parse_quote!(Config)); }
				}
				let (_, gtg, gw) = s.generics.split_for_impl();
				let (gig, _, _) = gens.split_for_impl();
				out.push(quote!(
					impl #gig ::frame_support::sp_runtime::BuildStorage for #n #gtg #gw {
						fn assimilate_storage(&self, s: &mut ::frame_support::sp_runtime::Storage) -> Result<(), String> {
							::frame_support::sp_io::execute_with_storage(s, || ::frame_support::traits::BuildGenesisConfig::build(self));
							Ok(())
						}
					}
				));
			},
			Item::Enum(s) if is("genesis_config") => s.attrs.retain(|a| !is_pallet(a, None)),
			Item::Impl(i) if is("hooks") => {
				has_hooks = true;
				hooks_where = i.generics.where_clause.to_token_stream();
				i.attrs.retain(|a| !is_pallet(a, None));
			},
			Item::Impl(i) if is("call") => {
				has_call = true;
				call_where = i.generics.where_clause.to_token_stream();
				i.attrs.retain(|a| !is_pallet(a, None));
				let mut next = 0u8;
				for f in i.items.iter_mut() {
					let ImplItem::Fn(f) = f else { continue };
					let idx = match take(&mut f.attrs, "call_index") {
						Some(a) => a.parse_args::<LitInt>()?.base10_parse()?,
						None => next,
					};
					next = idx + 1;
					let weight: Expr = match take(&mut f.attrs, "weight") {
						Some(a) => a.parse_args()?,
						None => parse_quote!(::frame_support::weights::Weight::zero()),
					};
					f.attrs.retain(|a| !is_pallet(a, None));
					let mut args = vec![];
					for a in f.sig.inputs.iter_mut().skip(1) {
						let FnArg::Typed(a) = a else { continue };
						let compact = take(&mut a.attrs, "compact").is_some();
						let Pat::Ident(p) = &*a.pat else { return Err(Error::new_spanned(&a.pat, "argument name expected")) };
						args.push((p.ident.clone(), (*a.ty).clone(), compact));
					}
					let b = &f.block;
					f.block = parse_quote!({ ::frame_support::storage::with_storage_layer(|| #b) });
					calls.push((f.sig.ident.clone(), idx, args, weight));
				}
			},
			Item::Fn(f) if is("type_value") => {
				let n = &f.sig.ident;
				let g = &f.sig.generics;
				let (fig, ftg, fw) = g.split_for_impl();
				let ps: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
				let ret = match &f.sig.output {
					ReturnType::Type(_, t) => quote!(#t),
					_ => quote!(()),
				};
				let (vis, b) = (&f.vis, &f.block);
				let s = quote!(#vis struct #n<#(#ps),*>(::core::marker::PhantomData<(#(#ps,)*)>););
				out.push(quote!(#s impl #fig ::frame_support::traits::Get<#ret> for #n #ftg #fw { fn get() -> #ret #b }));
				*it = Item::Verbatim(quote!());
			},
			Item::Impl(i) => {
				i.attrs.retain(|a| !is_pallet(a, None));
				if is("extra_constants") {
					Strip.visit_item_impl_mut(i);
				}
			},
			_ => {},
		}
	}

	// calls
	let variants = calls.iter().map(|(n, i, a, _)| {
		let fields = a.iter().map(|(n, t, c)| {
			let c = if *c { quote!(#[codec(compact)]) } else { quote!() };
			quote!(#c #n: #t)
		});
		quote!(#[codec(index = #i)] #[allow(non_camel_case_types)] #n { #(#fields),* })
	});
	let dispatch = calls.iter().map(|(n, _, a, _)| {
		let v: Vec<_> = a.iter().map(|x| &x.0).collect();
		quote!(Self::#n { #(#v),* } => <Pallet #tg>::#n(origin, #(#v),*).map(Into::into).map_err(Into::into),)
	});
	let infos = calls.iter().map(|(n, _, a, w)| {
		let v: Vec<_> = a.iter().map(|x| &x.0).collect();
		quote!(Self::#n { #(#v),* } => { #(let _ = &#v;)* ::frame_support::dispatch::IntoDispatchInfo::into_dispatch_info(#w) },)
	});
	let fn_names: Vec<String> = calls.iter().map(|c| c.0.to_string()).collect();
	let nm: Vec<_> = calls.iter().map(|c| c.0.clone()).collect();
	let ctors = calls.iter().map(|(n, _, a, _)| {
		let f = format_ident!("new_call_variant_{}", n);
		let args: Vec<_> = a.iter().map(|x| &x.0).collect();
		let tys: Vec<_> = a.iter().map(|x| &x.1).collect();
		quote!(pub fn #f(#(#args: #tys),*) -> Self { Self::#n { #(#args),* } })
	});
	if inst {
		out.push(quote!(pub use ::frame_support::instances::{Instance1, Instance2, Instance3, Instance4, Instance5, Instance6, Instance7, Instance8};));
	}
	if !has_call {
		out.push(quote!(impl #ig Pallet #tg {}));
	}
	out.push(quote!(
		#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::EqNoBound, ::frame_support::RuntimeDebugNoBound, ::codec::Encode, ::codec::Decode)]
		#[codec(encode_bound())] #[codec(decode_bound())]
		#[allow(non_camel_case_types)]
		pub enum Call #dg #call_where {
			#[doc(hidden)] #[codec(skip)] __Ignore(#phantom, ::frame_support::Never),
			#(#variants),*
		}
		impl #ig Call #tg #call_where { #(#ctors)* }
		impl #ig ::frame_support::dispatch::GetDispatchInfo for Call #tg #call_where {
			#[allow(unused_variables)]
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { #(#infos)* Self::__Ignore(_, n) => match *n {} } }
		}
		impl #ig ::frame_support::traits::GetCallName for Call #tg #call_where {
			fn get_call_names() -> &'static [&'static str] { &[#(#fn_names),*] }
			fn get_call_name(&self) -> &'static str { match self { #(Self::#nm { .. } => #fn_names,)* Self::__Ignore(_, n) => match *n {} } }
		}
		impl #ig ::frame_support::traits::UnfilteredDispatchable for Call #tg #call_where {
			type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
			#[allow(unused_variables)]
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(#dispatch)* Self::__Ignore(_, n) => match n {} }
			}
		}
		impl #ig ::frame_support::traits::Callable<T> for Pallet #tg #call_where { type RuntimeCall = Call #tg; }
		impl #ig ::scale_info::TypeInfo for Call #tg #call_where {
			type Identity = ();
			fn type_info() -> ::scale_info::Type { <() as ::scale_info::TypeInfo>::type_info() }
		}
	));
	// hooks
	if !has_hooks {
		out.push(quote!(impl #ig ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet #tg {}));
	}
	let bn = quote!(::frame_system::pallet_prelude::BlockNumberFor<T>);
	let hk = quote!(<Self as ::frame_support::traits::Hooks<#bn>>);
	out.push(quote!(
		impl #ig ::frame_support::traits::OnInitialize<#bn> for Pallet #tg #hooks_where { fn on_initialize(n: #bn) -> ::frame_support::weights::Weight { #hk::on_initialize(n) } }
		impl #ig ::frame_support::traits::OnFinalize<#bn> for Pallet #tg #hooks_where { fn on_finalize(n: #bn) { #hk::on_finalize(n) } }
		impl #ig ::frame_support::traits::OnIdle<#bn> for Pallet #tg #hooks_where { fn on_idle(n: #bn, w: ::frame_support::weights::Weight) -> ::frame_support::weights::Weight { #hk::on_idle(n, w) } }
		impl #ig ::frame_support::traits::OnRuntimeUpgrade for Pallet #tg #hooks_where { fn on_runtime_upgrade() -> ::frame_support::weights::Weight { #hk::on_runtime_upgrade() } }
		impl #ig ::frame_support::traits::OffchainWorker<#bn> for Pallet #tg #hooks_where { fn offchain_worker(n: #bn) { #hk::offchain_worker(n) } }
		impl #ig ::frame_support::traits::IntegrityTest for Pallet #tg #hooks_where { fn integrity_test() { #hk::integrity_test() } }
		impl #ig ::frame_support::traits::PalletInfoAccess for Pallet #tg {
			fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Self>().expect("pallet is part of the runtime") }
			fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Self>().expect("pallet is part of the runtime") }
			fn module_name() -> &'static str { Self::name() }
			fn crate_version() -> ::frame_support::traits::CrateVersion { Default::default() }
		}
		impl #ig ::frame_support::traits::GetStorageVersion for Pallet #tg {
			type CurrentStorageVersion = ::frame_support::traits::StorageVersion;
			fn current_storage_version() -> ::frame_support::traits::StorageVersion { #storage_version }
			fn in_code_storage_version() -> ::frame_support::traits::StorageVersion { #storage_version }
			fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::get::<Self>() }
		}
		impl #ig ::frame_support::traits::OnGenesis for Pallet #tg { fn on_genesis() { #storage_version.put::<Self>() } }
	));
	// parts
	let ev = if has_event {
		if event_generic { quote!(Event #tg) } else { quote!(Event) }
	} else {
		quote!(::frame_support::NoPart<Pallet #tg>)
	};
	let or = if has_origin {
		if origin_generic { quote!(Origin #tg) } else { quote!(Origin) }
	} else {
		quote!(::frame_support::NoPart<Pallet #tg>)
	};
	out.push(quote!(
		#[doc(hidden)] pub mod __rt {
			#[allow(unused_imports)] use super::*;
			#[allow(type_alias_bounds)] pub type RtEvent<#plain_def> = #ev;
			#[allow(type_alias_bounds)] pub type RtOrigin<#plain_def> = #or;
		}
		impl #ig ::frame_support::Parts for Pallet #tg { type Event = #ev; type Origin = #or; }
	));
	let Item::Verbatim(_) = Item::Verbatim(quote!()) else { unreachable!() };
	let attrs = &m.attrs;
	let (vis, id) = (&m.vis, &m.ident);
	let mut strip_items = items;
	for i in strip_items.iter_mut() {
		if let Item::Enum(e) = i {
			e.attrs.retain(|a| !is_pallet(a, None));
		}
	}
	Ok(quote!(#(#attrs)* #vis mod #id { #(#strip_items)* #(#out)* }))
}

fn storage(t: &mut ItemType, _ig: &TokenStream, _tg: &TokenStream, igb: &TokenStream, plain: &TokenStream, inst: bool) -> Result<TokenStream> {
	let getter = take(&mut t.attrs, "getter");
	let prefix_attr = take(&mut t.attrs, "storage_prefix");
	t.attrs.retain(|a| !is_pallet(a, None));
	let name = &t.ident;
	let pfx_name = match prefix_attr {
		Some(a) => a.meta.require_name_value()?.value.to_token_stream(),
		None => name.to_string().to_token_stream(),
	};
	let pfx = format_ident!("_GeneratedPrefixForStorage{}", name);
	let vis: Visibility = parse_quote!(pub);
	let ptg = if inst { quote!(<T, I>) } else { quote!(<T>) };
	let phantom = if inst { quote!((T, I)) } else { quote!(T) };
	let Type::Path(p) = &mut *t.ty else { return Err(Error::new_spanned(&t.ty, "storage type expected")) };
	let seg = p.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let PathArguments::AngleBracketed(ab) = &mut seg.arguments else { return Err(Error::new_spanned(seg, "generics expected")) };
	if ab.args.iter().any(|a| matches!(a, GenericArgument::AssocType(_))) {
		let order: &[&str] = match kind.as_str() {
			"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
			"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
			"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
			_ => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		};
		let mut v: Vec<GenericArgument> = vec![parse_quote!(#pfx #ptg)];
		for o in order {
			let found = ab.args.iter().find_map(|a| match a {
				GenericArgument::AssocType(x) if x.ident == o => Some(x.ty.clone()),
				_ => None,
			});
			match found {
				Some(ty) => v.push(GenericArgument::Type(ty)),
				None if *o == "QueryKind" => v.push(parse_quote!(::frame_support::storage::types::OptionQuery)),
				None if *o == "OnEmpty" => v.push(parse_quote!(::frame_support::traits::GetDefault)),
				None => break,
			}
		}
		ab.args = v.into_iter().collect();
	} else {
		*ab.args.first_mut().unwrap() = parse_quote!(#pfx #ptg);
	}
	let args: Vec<GenericArgument> = ab.args.iter().cloned().collect();
	let g: Vec<Ident> = t.generics.type_params().map(|p| p.ident.clone()).collect();
	let ftg = if g.is_empty() { quote!() } else { quote!(<#(#g),*>) };
	// the type alias cannot carry bounds that matter
	let full = quote!(#name #ftg);
	let turbofish = if g.is_empty() { quote!(#name) } else { quote!(#name::<#(#g),*>) };
	let q = quote!(<#full as ::frame_support::storage::types::StorageQuery>::Query);
	let cfgs = t.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect::<Vec<_>>();
	let get = match getter {
		None => quote!(),
		Some(a) => {
			let f: TokenStream = a.meta.require_list()?.tokens.clone();
			// `fn name`
			let f: TokenStream = f.into_iter().skip(1).collect();
			let body = match kind.as_str() {
				"StorageValue" => quote!(pub fn #f() -> #q { #turbofish::get() }),
				"StorageMap" | "CountedStorageMap" => {
					let k = &args[2];
					quote!(pub fn #f<KArg: ::codec::EncodeLike<#k>>(k: KArg) -> #q { #turbofish::get(k) })
				},
				"StorageDoubleMap" => {
					let (k1, k2) = (&args[2], &args[4]);
					quote!(pub fn #f<KArg1: ::codec::EncodeLike<#k1>, KArg2: ::codec::EncodeLike<#k2>>(k1: KArg1, k2: KArg2) -> #q { #turbofish::get(k1, k2) })
				},
				_ => {
					let k = &args[1];
					quote!(pub fn #f<KArg: ::frame_support::storage::types::EncodeLikeTuple<<#k as ::frame_support::storage::types::KeyGenerator>::KArg>>(k: KArg) -> #q { #turbofish::get(k) })
				},
			};
			quote!(#(#cfgs)* impl<#igb> Pallet<#plain> { #[allow(dead_code)] #body })
		},
	};
	Ok(quote!(
		#(#cfgs)* #[doc(hidden)] #[allow(non_camel_case_types)] #vis struct #pfx #ptg(::core::marker::PhantomData<#phantom>);
		#(#cfgs)* impl<#igb> ::frame_support::traits::StorageInstance for #pfx #ptg {
			fn pallet_prefix() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Pallet<#plain>>().expect("pallet is part of the runtime") }
			const STORAGE_PREFIX: &'static str = #pfx_name;
		}
		#get
	))
}

use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;

pub fn transactional(item: TokenStream, require: bool) -> TokenStream {
	let ItemFn { attrs, vis, sig, block } = parse_macro_input!(item as ItemFn);
	if require {
		quote!(#(#attrs)* #vis #sig { if !::frame_support::storage::transactional::is_transactional() { return Err(::frame_support::storage::transactional::not_transactional().into()); } #block }).into()
	} else {
		quote!(#(#attrs)* #vis #sig {
			use ::frame_support::storage::{with_transaction, TransactionOutcome};
			with_transaction(|| {
				let r = (|| { #block })();
				if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) }
			})
		}).into()
	}
}
/// `type Foo<T> = StorageValue<Prefix, V>`: the prefix is a pallet type or a literal name.
pub fn storage_alias(attr: TokenStream, item: TokenStream) -> TokenStream {
	let dynamic = attr.to_string() == "dynamic";
	let mut it = parse_macro_input!(item as ItemType);
	let name = it.ident.clone();
	let pfx = format_ident!("__StorageAliasPrefix{}", name);
	let s = name.to_string();
	let gen = it.generics.clone();
	let vis = it.vis.clone();
	let has_gen = !gen.params.is_empty();
	let Type::Path(p) = &mut *it.ty else { panic!("storage alias") };
	let seg = p.path.segments.last_mut().unwrap();
	let PathArguments::AngleBracketed(ab) = &mut seg.arguments else { panic!("storage alias") };
	let first = ab.args.first().unwrap().clone();
	let GenericArgument::Type(prefix_ty) = &first else { panic!("storage alias") };
	let (ig, tg, w) = gen.split_for_impl();
	let is_lit = !has_gen && matches!(prefix_ty, Type::Path(q) if q.path.segments.len() == 1 && q.path.segments[0].arguments.is_empty());
	let pn = if dynamic {
		quote!(<#prefix_ty as ::frame_support::traits::Get<&'static str>>::get())
	} else if is_lit {
		let l = quote!(#prefix_ty).to_string();
		quote!(#l)
	} else {
		quote!(<#prefix_ty as ::frame_support::traits::PalletInfoAccess>::name())
	};
	let params: Vec<_> = gen.type_params().map(|t| t.ident.clone()).collect();
	*ab.args.first_mut().unwrap() = parse_quote!(#pfx #tg);
	let last = seg.clone();
	it.ty = parse_quote!(::frame_support::storage::types::#last);
	let strct = quote!(#vis struct #pfx<#(#params),*>(::core::marker::PhantomData<(#(#params,)*)>););
	let mut alias_gen = it.generics.clone();
	for p in alias_gen.type_params_mut() {
		p.bounds.clear();
		p.colon_token = None;
	}
	let ty = &it.ty;
	quote!(
		#[doc(hidden)] #[allow(non_camel_case_types)] #strct
		impl #ig ::frame_support::traits::StorageInstance for #pfx #tg #w {
			fn pallet_prefix() -> &'static str { #pn }
			const STORAGE_PREFIX: &'static str = #s;
		}
		#vis type #name #alias_gen = #ty;
	).into()
}
pub fn derive_impl(item: TokenStream) -> TokenStream {
	let mut im = parse_macro_input!(item as ItemImpl);
	let have: Vec<String> = im.items.iter().filter_map(|i| if let ImplItem::Type(t) = i { Some(t.ident.to_string()) } else { None }).collect();
	let add = |im: &mut ItemImpl, n: &str, t: proc_macro2::TokenStream| {
		if !have.iter().any(|h| h == n) {
			let n = format_ident!("{}", n);
			im.items.push(parse_quote!(type #n = #t;));
		}
	};
	if have.iter().any(|h| h == "Block") || im.trait_.as_ref().map(|t| quote::ToTokens::to_token_stream(&t.1).to_string().contains("system")).unwrap_or(false) {
		for (n, t) in [
			("BaseCallFilter", quote!(::frame_support::traits::Everything)),
			("BlockWeights", quote!(())),
			("BlockLength", quote!(())),
			("RuntimeOrigin", quote!(RuntimeOrigin)),
			("RuntimeCall", quote!(RuntimeCall)),
			("RuntimeTask", quote!(RuntimeTask)),
			("RuntimeEvent", quote!(RuntimeEvent)),
			("PalletInfo", quote!(PalletInfo)),
			("Nonce", quote!(u32)),
			("Hash", quote!(::sp_core::H256)),
			("Hashing", quote!(::sp_runtime::traits::BlakeTwo256)),
			("AccountId", quote!(u64)),
			("Lookup", quote!(::sp_runtime::traits::IdentityLookup<u64>)),
			("BlockHashCount", quote!(::frame_support::traits::ConstU64<250>)),
			("DbWeight", quote!(())),
			("Version", quote!(())),
			("AccountData", quote!(())),
			("OnNewAccount", quote!(())),
			("OnKilledAccount", quote!(())),
			("SystemWeightInfo", quote!(())),
			("SS58Prefix", quote!(())),
			("OnSetCode", quote!(())),
			("MaxConsumers", quote!(::frame_support::traits::ConstU32<16>)),
		] {
			add(&mut im, n, t);
		}
	}
	quote!(#im).into()
}

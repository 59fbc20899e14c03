use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::*;

fn arms(name: &Ident, v: &Fields, vname: Option<&Ident>, pfx: &str) -> (TokenStream, Vec<Ident>, Vec<Option<Ident>>) {
	let path = match vname {
		Some(x) => quote!(#name::#x),
		None => quote!(#name),
	};
	let b: Vec<Ident> = (0..v.len()).map(|i| format_ident!("{}{}", pfx, i)).collect();
	let names: Vec<Option<Ident>> = v.iter().map(|f| f.ident.clone()).collect();
	let pat = match v {
		Fields::Named(_) => {
			let n = names.iter().map(|x| x.clone().unwrap());
			quote!(#path { #(#n: #b),* })
		},
		Fields::Unnamed(_) => quote!(#path(#(#b),*)),
		Fields::Unit => quote!(#path),
	};
	(pat, b, names)
}
fn variants(i: &DeriveInput) -> Vec<(Option<Ident>, Fields)> {
	match &i.data {
		Data::Struct(s) => vec![(None, s.fields.clone())],
		Data::Enum(e) => e.variants.iter().map(|v| (Some(v.ident.clone()), v.fields.clone())).collect(),
		_ => vec![],
	}
}
pub fn clone(i: DeriveInput) -> TokenStream {
	let name = &i.ident;
	let (ig, tg, w) = i.generics.split_for_impl();
	let a = variants(&i).into_iter().map(|(v, f)| {
		let (pat, b, names) = arms(name, &f, v.as_ref(), "a");
		let path = match &v {
			Some(x) => quote!(#name::#x),
			None => quote!(#name),
		};
		let body = match f {
			Fields::Named(_) => {
				let n = names.iter().map(|x| x.clone().unwrap());
				quote!(#path { #(#n: ::core::clone::Clone::clone(#b)),* })
			},
			Fields::Unnamed(_) => quote!(#path(#(::core::clone::Clone::clone(#b)),*)),
			Fields::Unit => quote!(#path),
		};
		quote!(#pat => #body,)
	});
	quote!(impl #ig ::core::clone::Clone for #name #tg #w { fn clone(&self) -> Self { match self { #(#a)* } } })
}
pub fn partial_eq(i: DeriveInput) -> TokenStream {
	let name = &i.ident;
	let (ig, tg, w) = i.generics.split_for_impl();
	let a = variants(&i).into_iter().map(|(v, f)| {
		let (p1, b1, _) = arms(name, &f, v.as_ref(), "a");
		let (p2, b2, _) = arms(name, &f, v.as_ref(), "b");
		quote!((#p1, #p2) => { true #(&& #b1 == #b2)* })
	});
	quote!(impl #ig ::core::cmp::PartialEq for #name #tg #w { #[allow(unreachable_patterns)] fn eq(&self, other: &Self) -> bool { match (self, other) { #(#a)* _ => false } } })
}
pub fn eq(i: DeriveInput) -> TokenStream {
	let name = &i.ident;
	let (ig, tg, w) = i.generics.split_for_impl();
	quote!(impl #ig ::core::cmp::Eq for #name #tg #w {})
}
pub fn debug(mut i: DeriveInput, bound: bool) -> TokenStream {
	if bound {
		let ps: Vec<Ident> = i.generics.type_params().map(|p| p.ident.clone()).collect();
		let w = i.generics.make_where_clause();
		for p in ps {
			w.predicates.push(parse_quote!(#p: ::core::fmt::Debug));
		}
	}
	let name = &i.ident;
	let (ig, tg, w) = i.generics.split_for_impl();
	let a = variants(&i).into_iter().map(|(v, f)| {
		let (pat, b, names) = arms(name, &f, v.as_ref(), "a");
		let s = v.as_ref().unwrap_or(name).to_string();
		let body = match f {
			Fields::Named(_) => {
				let n = names.iter().map(|x| x.clone().unwrap().to_string());
				quote!(f.debug_struct(#s)#(.field(#n, #b))*.finish())
			},
			Fields::Unnamed(_) => quote!(f.debug_tuple(#s)#(.field(#b))*.finish()),
			Fields::Unit => quote!(f.write_str(#s)),
		};
		quote!(#pat => #body,)
	});
	let a: Vec<_> = a.collect();
	let body = if a.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#a)* }) };
	quote!(impl #ig ::core::fmt::Debug for #name #tg #w { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body } })
}
pub fn default(i: DeriveInput) -> TokenStream {
	let name = &i.ident;
	let (ig, tg, w) = i.generics.split_for_impl();
	let mk = |path: TokenStream, f: &Fields| match f {
		Fields::Named(n) => {
			let n = n.named.iter().map(|x| x.ident.clone().unwrap());
			quote!(#path { #(#n: ::core::default::Default::default()),* })
		},
		Fields::Unnamed(u) => {
			let u = u.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
			quote!(#path(#(#u),*))
		},
		Fields::Unit => path,
	};
	let body = match &i.data {
		Data::Struct(s) => mk(quote!(#name), &s.fields),
		Data::Enum(e) => {
			let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).unwrap_or(&e.variants[0]);
			let vi = &v.ident;
			mk(quote!(#name::#vi), &v.fields)
		},
		_ => quote!(),
	};
	quote!(impl #ig ::core::default::Default for #name #tg #w { fn default() -> Self { #body } })
}
pub fn pallet_error(i: DeriveInput) -> TokenStream {
	let name = &i.ident;
	let (ig, tg, w) = i.generics.split_for_impl();
	quote!(impl #ig ::frame_support::traits::PalletError for #name #tg #w { const MAX_ENCODED_SIZE: usize = 3; })
}

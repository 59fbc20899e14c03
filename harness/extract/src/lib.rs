//! Takes chosen items out of a file of the repository, with everything else of that file they mention.
use proc_macro2::{Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::{Item, UseTree};

pub struct Want<'a> {
	/// names to start from
	pub roots: &'a [&'a str],
	/// names the including module defines itself
	pub given: &'a [&'a str],
	/// `Trait for Runtime` blocks to take, with the associated types to keep, and what to add
	pub configs: &'a [(&'a str, &'a [&'a str], &'a str)],
	/// `Trait for Runtime`, associated type: what it is set to becomes `pub type` of the third name
	pub aliases: &'a [(&'a str, &'a str, &'a str)],
	/// crates that exist here: glob imports of others are dropped
	pub crates: &'a [&'a str],
}
struct Piece { names: Vec<String>, tokens: TokenStream, mentions: BTreeSet<String> }
fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
	for x in t {
		match x {
			TokenTree::Ident(i) => { out.insert(i.to_string()); }
			TokenTree::Group(g) => idents(g.stream(), out),
			_ => {}
		}
	}
}
fn piece(names: Vec<String>, tokens: TokenStream) -> Piece { let mut mentions = BTreeSet::new(); idents(tokens.clone(), &mut mentions); Piece { names, tokens, mentions } }
fn test_only(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| { let s = a.to_token_stream().to_string().replace(' ', ""); s == "#[cfg(test)]" || s == "#[cfg(feature=\"runtime-benchmarks\")]" || s == "#[cfg(feature=\"try-runtime\")]" }) }
fn flatten(t: &UseTree, pre: TokenStream, out: &mut Vec<(Option<String>, TokenStream)>) {
	match t {
		UseTree::Path(p) => { let i = &p.ident; flatten(&p.tree, quote!(#pre #i ::), out) }
		UseTree::Name(n) => { let i = &n.ident; if i == "self" { let v: Vec<TokenTree> = pre.clone().into_iter().collect(); let cut: TokenStream = v[..v.len() - 2].iter().cloned().collect(); out.push((Some(v[v.len() - 3].to_string()), quote!(#cut))) } else { out.push((Some(i.to_string()), quote!(#pre #i))) } }
		UseTree::Rename(r) => { let (i, n) = (&r.ident, &r.rename); let pre: TokenStream = if i == "self" { let v: Vec<TokenTree> = pre.into_iter().collect(); v[..v.len() - 2].iter().cloned().collect() } else { quote!(#pre #i) }; out.push((Some(n.to_string()), quote!(#pre as #n))) }
		UseTree::Glob(_) => out.push((None, quote!(#pre *))),
		UseTree::Group(g) => for x in &g.items { flatten(x, pre.clone(), out) },
	}
}
fn no_self(t: TokenStream) -> TokenStream {
	t.into_iter().map(|x| match x {
		TokenTree::Ident(i) if i == "Self" => TokenTree::Ident(syn::Ident::new("Runtime", i.span())),
		TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), no_self(g.stream()))),
		x => x,
	}).collect()
}
/// `parameter_types!` entries, one by one.
fn entries(t: TokenStream) -> Vec<(String, TokenStream)> {
	let (mut out, mut cur) = (vec![], vec![]);
	for x in t {
		let end = matches!(&x, TokenTree::Punct(p) if p.as_char() == ';' && p.spacing() == Spacing::Alone);
		cur.push(x);
		if end {
			let name = cur.windows(2).find_map(|w| match (&w[0], &w[1]) { (TokenTree::Ident(n), TokenTree::Punct(p)) if p.as_char() == ':' => Some(n.to_string()), _ => None });
			if let Some(n) = name { out.push((n, cur.drain(..).collect())) }
			cur.clear();
		}
	}
	out
}
pub fn extract(file: &str, w: &Want) -> String {
	println!("cargo:rerun-if-changed={file}");
	let src = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{file}: {e}"));
	let parsed = syn::parse_file(&src).unwrap_or_else(|e| panic!("{file}: {e}"));
	let mut pieces: Vec<Piece> = vec![];
	let mut uses: Vec<(Option<String>, TokenStream)> = vec![];
	let mut impls: Vec<syn::ItemImpl> = vec![];
	for item in parsed.items {
		let attrs: &[syn::Attribute] = match &item { Item::Struct(i) => &i.attrs, Item::Enum(i) => &i.attrs, Item::Type(i) => &i.attrs, Item::Const(i) => &i.attrs, Item::Static(i) => &i.attrs, Item::Fn(i) => &i.attrs, Item::Trait(i) => &i.attrs, Item::Impl(i) => &i.attrs, Item::Use(i) => &i.attrs, Item::Macro(i) => &i.attrs, Item::Mod(i) => &i.attrs, _ => &[] };
		if test_only(attrs) { continue }
		match item {
			Item::Struct(i) => pieces.push(piece(vec![i.ident.to_string()], i.to_token_stream())),
			Item::Enum(i) => pieces.push(piece(vec![i.ident.to_string()], i.to_token_stream())),
			Item::Type(i) => pieces.push(piece(vec![i.ident.to_string()], i.to_token_stream())),
			Item::Const(i) => pieces.push(piece(vec![i.ident.to_string()], i.to_token_stream())),
			Item::Static(i) => pieces.push(piece(vec![i.ident.to_string()], i.to_token_stream())),
			Item::Fn(i) => pieces.push(piece(vec![i.sig.ident.to_string()], i.to_token_stream())),
			Item::Trait(i) => pieces.push(piece(vec![i.ident.to_string()], i.to_token_stream())),
			Item::Mod(i) => pieces.push(piece(vec![i.ident.to_string()], i.to_token_stream())),
			Item::Macro(i) => {
				let name = i.mac.path.segments.last().unwrap().ident.to_string();
				if name == "parameter_types" {
					for (n, t) in entries(i.mac.tokens.clone()) { pieces.push(piece(vec![n], quote!(frame_support::parameter_types! { #t }))) }
				} else if name == "macro_rules" { pieces.push(piece(vec![i.ident.as_ref().map(|x| x.to_string()).unwrap_or_default()], i.to_token_stream())) }
				else {
					let mut n = vec![];
					let v: Vec<TokenTree> = i.mac.tokens.clone().into_iter().collect();
					for x in v.windows(3) { if let (TokenTree::Ident(a), TokenTree::Ident(b), TokenTree::Punct(p)) = (&x[0], &x[1], &x[2]) { if a == "pub" && p.as_char() == ':' { n.push(b.to_string()) } } }
					if !n.is_empty() { pieces.push(piece(n, i.to_token_stream())) }
				}
			}
			Item::Use(i) => flatten(&i.tree, quote!(), &mut uses),
			Item::Impl(i) => impls.push(i),
			_ => {}
		}
	}
	let here: BTreeSet<String> = pieces.iter().flat_map(|p| p.names.clone()).collect();
	let mut chosen = vec![];
	for i in impls {
		let this = match &*i.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() };
		if here.contains(&this) && !w.given.contains(&this.as_str()) { pieces.push(piece(vec![this], i.to_token_stream())); continue }
		let tr = i.trait_.as_ref().map(|(_, p, _)| p.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
		if this == "Runtime" {
			for (_, assoc, alias) in w.aliases.iter().filter(|a| a.0 == tr) {
				let t = i.items.iter().find_map(|x| match x { syn::ImplItem::Type(t) if t.ident == assoc && !test_only(&t.attrs) => Some(t.ty.to_token_stream()), _ => None }).unwrap_or_else(|| panic!("{file}: {tr} without {assoc}"));
				let (t, alias) = (no_self(t), syn::Ident::new(alias, proc_macro2::Span::call_site()));
				chosen.push(piece(vec![alias.to_string()], quote!(pub type #alias = #t;)));
			}
		}
		if let Some((_, keep, add)) = w.configs.iter().find(|c| c.0 == tr && this == "Runtime") {
			let mut i = i;
			i.items.retain(|x| match x { syn::ImplItem::Type(t) => keep.contains(&t.ident.to_string().as_str()) && !test_only(&t.attrs), _ => false });
			for k in *keep { assert!(i.items.iter().any(|x| matches!(x, syn::ImplItem::Type(t) if t.ident == k)), "{file}: {tr} without {k}") }
			let more: TokenStream = add.parse().unwrap();
			let (a, b, items) = (&i.trait_.as_ref().unwrap().1, &i.self_ty, &i.items);
			chosen.push(piece(vec![], quote!(impl #a for #b { #(#items)* #more })));
			continue;
		}
		// a conversion out of a local type
		let mut m = BTreeSet::new();
		if let Some((_, p, _)) = &i.trait_ { idents(p.to_token_stream(), &mut m) }
		idents(i.self_ty.to_token_stream(), &mut m);
		let names: Vec<String> = m.into_iter().filter(|x| here.contains(x)).collect();
		if !names.is_empty() && this != "Runtime" { pieces.push(piece(names, i.to_token_stream())) }
	}
	for (t, _, a) in w.aliases { assert!(chosen.iter().any(|p| p.names.iter().any(|n| n == a)), "{file}: no {t}") }
	for c in w.configs { assert!(chosen.iter().any(|p| p.tokens.to_string().replace(' ', "").contains(&format!("impl{}for", c.0))), "{file}: no {}", c.0) }
	let mut want: BTreeSet<String> = w.roots.iter().map(|x| x.to_string()).collect();
	for r in &want { assert!(here.contains(r), "{file} no longer defines {r}") }
	for p in &chosen { want.extend(p.mentions.clone()) }
	let mut taken = vec![false; pieces.len()];
	loop {
		let mut more = false;
		for (k, p) in pieces.iter().enumerate() {
			if !taken[k] && p.names.iter().any(|n| want.contains(n) && !w.given.contains(&n.as_str())) { taken[k] = true; more = true; want.extend(p.mentions.clone()) }
		}
		if !more { break }
	}
	let mut out = String::new();
	// all `use` paths may name other imports first
	let mut known: BTreeMap<String, ()> = BTreeMap::new();
	loop {
		let mut more = false;
		for (n, t) in &uses {
			let Some(n) = n else { continue };
			if !want.contains(n) || w.given.contains(&n.as_str()) || here.contains(n) || known.contains_key(n) { continue }
			known.insert(n.clone(), ());
			if let Some(TokenTree::Ident(first)) = t.clone().into_iter().next() { want.insert(first.to_string()); }
			out += &format!("#[allow(unused_imports)] pub(crate) use {};\n", t);
			more = true;
		}
		if !more { break }
	}
	for (n, t) in &uses {
		if n.is_some() { continue }
		let Some(TokenTree::Ident(first)) = t.clone().into_iter().next() else { continue };
		let first = first.to_string();
		if w.crates.contains(&first.as_str()) { out += &format!("#[allow(unused_imports)] pub(crate) use {};\n", t) }
	}
	for p in &chosen { out += &p.tokens.to_string(); out.push('\n') }
	for (k, p) in pieces.iter().enumerate() { if taken[k] { out += &p.tokens.to_string(); out.push('\n') } }
	out
}
/// Writes what was taken to `OUT_DIR/name`.
pub fn write(name: &str, text: &str) { std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join(name), text).unwrap() }

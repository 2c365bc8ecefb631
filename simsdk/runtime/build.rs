//! Takes /repo/runtime/frequency/src/lib.rs as it is now and writes the simulated node's runtime.
//!
//! Everything is kept, except for what belongs to pallets the simulation has no implementation of (governance beyond the
//! collectives, collation, sessions) and what exists only for the WASM build.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::{env, fs, path::Path};
use syn::{punctuated::Punctuated, *};

const SRC: &str = "/repo/runtime/frequency/src/lib.rs";
/// pallets without behaviour in the simulation: their `Config` implementation comes with the stand-in
const INERT: &[&str] = &[
	"pallet_session", "pallet_authorship", "pallet_aura", "cumulus_pallet_aura_ext", "parachain_info", "cumulus_pallet_parachain_system",
];
const DROP_API: &[&str] = &[
	"AuraApi", "AuraUnincludedSegmentApi", "Metadata", "SessionKeys", "GenesisBuilder", "CollectCollationInfo", "TryRuntime", "Benchmark",
];
const DROP_API_FN: &[&str] = &["inherent_extrinsics", "check_inherents"];

fn feature(name: &str) -> bool {
	["std", "frequency", "frequency-lint-check"].contains(&name)
}
fn eval(m: &Meta) -> bool {
	match m {
		Meta::Path(_) => false, // test, debug_assertions, ...
		Meta::NameValue(v) => match &v.value {
			Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => v.path.is_ident("feature") && feature(&s.value()),
			_ => false,
		},
		Meta::List(l) => {
			let inner: Vec<Meta> = l.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default();
			if l.path.is_ident("not") {
				!inner.iter().any(eval)
			} else if l.path.is_ident("any") {
				inner.iter().any(eval)
			} else {
				inner.iter().all(eval)
			}
		},
	}
}
/// Removes the `cfg`s; false when one of them does not hold.
fn live(attrs: &mut Vec<Attribute>) -> bool {
	let mut ok = true;
	attrs.retain(|a| {
		if a.path().is_ident("cfg") {
			if let Ok(m) = a.parse_args::<Meta>() {
				ok &= eval(&m);
			}
			return false
		}
		!a.path().is_ident("cfg_attr") && !(a.path().segments.len() == 2 && a.path().segments[0].ident == "sp_version") && !a.path().is_ident("doc")
	});
	ok
}
fn attrs_of(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Const(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::ExternCrate(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Macro(x) => &mut x.attrs,
		Item::Mod(x) => &mut x.attrs,
		Item::Static(x) => &mut x.attrs,
		Item::Struct(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Use(x) => &mut x.attrs,
		_ => return None,
	})
}
/// One pallet line of `construct_runtime!`, kept when its `cfg` holds.
fn runtime_entries(ts: TokenStream) -> TokenStream {
	use proc_macro2::{Delimiter, Group, TokenTree};
	let mut out = TokenStream::new();
	for t in ts {
		match t {
			TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
				let mut body = TokenStream::new();
				let mut attrs = TokenStream::new();
				let mut entry = TokenStream::new();
				let mut flush = |attrs: &mut TokenStream, entry: &mut TokenStream, body: &mut TokenStream| {
					let a = std::mem::take(attrs);
					let e = std::mem::take(entry);
					let mut parsed: Vec<Attribute> = syn::parse::Parser::parse2(Attribute::parse_outer, a).unwrap_or_default();
					if live(&mut parsed) && !e.is_empty() {
						body.extend(e);
						body.extend(quote!(,));
					}
				};
				let mut it = g.stream().into_iter().peekable();
				while let Some(t) = it.next() {
					match &t {
						TokenTree::Punct(p) if p.as_char() == '#' && entry.is_empty() => {
							attrs.extend([t.clone(), it.next().unwrap()]);
						},
						TokenTree::Punct(p) if p.as_char() == ',' => flush(&mut attrs, &mut entry, &mut body),
						_ => entry.extend([t]),
					}
				}
				flush(&mut attrs, &mut entry, &mut body);
				out.extend([TokenTree::Group(Group::new(Delimiter::Brace, body))]);
			},
			t => out.extend([t]),
		}
	}
	out
}

fn main() {
	println!("cargo:rerun-if-changed={}", SRC);
	println!("cargo:rerun-if-changed=build.rs");
	let src = fs::read_to_string(SRC).expect("runtime source");
	let file = parse_file(&src).expect("runtime source parses");
	let mut out = TokenStream::new();
	for mut it in file.items {
		if let Some(a) = attrs_of(&mut it) {
			if !live(a) {
				continue
			}
		}
		match &mut it {
			Item::Fn(f) if f.sig.ident == "wasm_binary_unwrap" => continue,
			Item::Type(t) if t.ident == "ConsensusHook" => continue,
			Item::Impl(im) => {
				if let Some((_, p, _)) = &im.trait_ {
					let first = p.segments.first().unwrap().ident.to_string();
					if p.segments.last().unwrap().ident == "Config" && INERT.contains(&first.as_str()) {
						continue
					}
				}
				im.items.retain_mut(|i| match i {
					ImplItem::Type(t) => live(&mut t.attrs),
					ImplItem::Fn(t) => live(&mut t.attrs),
					ImplItem::Const(t) => live(&mut t.attrs),
					_ => true,
				});
				// a registry small enough for a run to fill it; the real limit otherwise
				for i in im.items.iter_mut() {
					if let ImplItem::Type(t) = i {
						if t.ident == "MaxSignaturesStored" {
							let real = t.ty.clone();
							t.ty = parse_quote!(crate::SimMaxSigs<#real>);
						}
					}
				}
			},
			Item::Macro(m) => {
				let name = m.mac.path.segments.last().unwrap().ident.to_string();
				match name.as_str() {
					"include" | "impl_opaque_keys" | "register_validate_block" => continue,
					"construct_runtime" => m.mac.tokens = runtime_entries(m.mac.tokens.clone()),
					"impl_runtime_apis" => {
						let f: File = parse2(m.mac.tokens.clone()).expect("runtime apis parse");
						let mut keep = vec![];
						for mut i in f.items {
							if !attrs_of(&mut i).map(live).unwrap_or(true) {
								continue
							}
							if let Item::Impl(im) = &mut i {
								let n = im.trait_.as_ref().unwrap().1.segments.last().unwrap().ident.to_string();
								if DROP_API.contains(&n.as_str()) {
									continue
								}
								im.items.retain_mut(|x| match x {
									ImplItem::Fn(f) => live(&mut f.attrs) && !DROP_API_FN.contains(&f.sig.ident.to_string().as_str()),
									_ => true,
								});
							}
							keep.push(i);
						}
						m.mac.tokens = quote!( #(#keep)* );
					},
					_ => {},
				}
			},
			_ => {},
		}
		it.to_tokens(&mut out);
	}
	let dst = Path::new(&env::var("OUT_DIR").unwrap()).join("runtime.rs");
	fs::write(dst, out.to_string()).unwrap();
}

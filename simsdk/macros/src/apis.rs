//! `decl_runtime_apis!` and `impl_runtime_apis!`
use proc_macro2::{Span, TokenStream};
use quote::quote;
use syn::*;

fn snake(s: &str) -> String {
	let mut o = String::new();
	for (i, c) in s.chars().enumerate() {
		if c.is_uppercase() && i > 0 {
			o.push('_');
		}
		o.extend(c.to_lowercase());
	}
	o
}
fn server_mod(name: &Ident) -> Ident {
	Ident::new(&format!("runtime_decl_for_{}", snake(&name.to_string())), Span::call_site())
}

fn arg_names(sig: &Signature) -> (Vec<Ident>, Vec<Type>) {
	let mut n = vec![];
	let mut t = vec![];
	for (i, a) in sig.inputs.iter().enumerate() {
		if let FnArg::Typed(p) = a {
			n.push(match &*p.pat {
				Pat::Ident(i) => i.ident.clone(),
				_ => Ident::new(&format!("__arg{}", i), Span::call_site()),
			});
			t.push((*p.ty).clone());
		}
	}
	(n, t)
}

pub fn decl(f: File) -> Result<TokenStream> {
	let mut out = vec![];
	for it in f.items {
		let Item::Trait(t) = it else { return Err(Error::new(Span::call_site(), "only traits")) };
		let name = &t.ident;
		let m = server_mod(name);
		let mut g = t.generics.clone();
		g.params.insert(0, parse_quote!(Block: ::simsdk::sp_runtime::traits::Block));
		let (ig, _, wc) = g.split_for_impl();
		let docs: Vec<_> = t.attrs.iter().filter(|a| a.path().is_ident("doc")).collect();
		let mut cl = vec![];
		let mut sv = vec![];
		let mut seen: Vec<String> = vec![];
		for ti in &t.items {
			let TraitItem::Fn(mf) = ti else { continue };
			let sig = &mf.sig;
			let id = &sig.ident;
			// keep the latest version of a method only (`#[changed_in]`)
			if mf.attrs.iter().any(|a| a.path().is_ident("changed_in")) || seen.contains(&id.to_string()) {
				continue
			}
			seen.push(id.to_string());
			let (an, at) = arg_names(sig);
			let ret = match &sig.output {
				ReturnType::Type(_, t) => quote!(#t),
				_ => quote!(()),
			};
			cl.push(quote!( #[allow(missing_docs)] fn #id(&self, __at: <Block as ::simsdk::sp_runtime::traits::Block>::Hash, #(#an: #at),*) -> ::core::result::Result<#ret, ::simsdk::sp_api::ApiError>; ));
			sv.push(quote!( #[allow(missing_docs)] fn #id(#(#an: #at),*) -> #ret; ));
		}
		out.push(quote!(
			#(#docs)*
			pub trait #name #ig #wc { #(#cl)* }
			#[doc(hidden)] #[allow(missing_docs)]
			pub mod #m {
				use super::*;
				pub trait #name #ig #wc { #(#sv)* }
			}
		));
	}
	Ok(quote!( #(#out)* ))
}

/// For every `impl path::Api<Block, ..> for Runtime` the server side, and the client side for `SimRuntimeApi`.
pub fn implement(f: File) -> Result<TokenStream> {
	let mut out = vec![];
	for it in f.items {
		let Item::Impl(im) = it else { return Err(Error::new(Span::call_site(), "only impls")) };
		let (_, path, _) = im.trait_.clone().unwrap();
		let self_ty = &im.self_ty;
		let mut spath = path.clone();
		let last = spath.segments.pop().unwrap().into_value();
		let m = server_mod(&last.ident);
		spath.segments.push(parse_quote!(#m));
		spath.segments.push(last.clone());
		let mut im2 = im.clone();
		im2.trait_ = Some((None, spath.clone(), Default::default()));
		let mut cl = vec![];
		for i in &im.items {
			let ImplItem::Fn(mf) = i else { continue };
			let id = &mf.sig.ident;
			let (an, at) = arg_names(&mf.sig);
			let ret = match &mf.sig.output {
				ReturnType::Type(_, t) => quote!(#t),
				_ => quote!(()),
			};
			cl.push(quote!(
				fn #id(&self, __at: <Block as ::simsdk::sp_runtime::traits::Block>::Hash, #(#an: #at),*) -> ::core::result::Result<#ret, ::simsdk::sp_api::ApiError> {
					self.run_at(__at, move || <#self_ty as #spath>::#id(#(#an),*))
				}
			));
		}
		out.push(quote!( #im2 impl #path for SimRuntimeApi { #(#cl)* } ));
	}
	Ok(quote!( #(#out)* ))
}

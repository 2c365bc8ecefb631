use crate::util::*;
use proc_macro2::TokenStream;
use quote::quote;
use syn::*;

fn strip(input: &DeriveInput) -> Generics {
	let mut g = input.generics.clone();
	for p in &mut g.params {
		if let GenericParam::Type(t) = p {
			t.default = None;
		}
	}
	g
}
/// (variant name tokens, fields) of a struct or enum
fn variants(d: &Data) -> Vec<(TokenStream, String, Fields)> {
	match d {
		Data::Struct(s) => vec![(quote!(Self), String::new(), s.fields.clone())],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let i = &v.ident;
				(quote!(Self::#i), i.to_string(), v.fields.clone())
			})
			.collect(),
		Data::Union(_) => vec![],
	}
}
fn imp(input: &DeriveInput, tr: TokenStream, body: TokenStream) -> TokenStream {
	let g = strip(input);
	let (ig, _, wc) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	quote!( #[automatically_derived] #[allow(deprecated, unreachable_patterns, unused_variables)] impl #ig #tr for #name #tg #wc { #body } )
}

pub fn clone(input: DeriveInput) -> TokenStream {
	let arms = variants(&input.data).into_iter().map(|(p, _, f)| {
		let (pat, names) = bind(&f, "f");
		let b = build(&f, names.iter().map(|n| quote!(::core::clone::Clone::clone(#n))).collect());
		quote!( #p #pat => #p #b, )
	});
	let body = quote!( fn clone(&self) -> Self { match self { #(#arms)* } } );
	imp(&input, quote!(::core::clone::Clone), body)
}
pub fn eq(input: DeriveInput) -> TokenStream {
	imp(&input, quote!(::core::cmp::Eq), quote!())
}
pub fn partial_eq(input: DeriveInput) -> TokenStream {
	let arms = variants(&input.data).into_iter().map(|(p, _, f)| {
		let (pa, na) = bind(&f, "a");
		let (pb, nb) = bind(&f, "b");
		quote!( (#p #pa, #p #pb) => true #( && *#na == *#nb )*, )
	});
	let body = quote!( fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms)* _ => false } } );
	imp(&input, quote!(::core::cmp::PartialEq), body)
}
fn cmp_body(input: &DeriveInput) -> TokenStream {
	let vs = variants(&input.data);
	let same = vs.iter().map(|(p, _, f)| {
		let (pa, na) = bind(f, "a");
		let (pb, nb) = bind(f, "b");
		quote!( (#p #pa, #p #pb) => { #( let c = ::core::cmp::Ord::cmp(#na, #nb); if c != ::core::cmp::Ordering::Equal { return c } )* ::core::cmp::Ordering::Equal } )
	});
	let idx: Vec<_> = vs
		.iter()
		.enumerate()
		.map(|(i, (p, _, _))| if vs.len() == 1 && p.to_string() == "Self" { quote!(_ => 0usize,) } else { quote!(#p { .. } => #i,) })
		.collect();
	let idx2 = idx.clone();
	quote!( match (self, other) { #(#same)* _ => { let a = match self { #(#idx)* }; let b = match other { #(#idx2)* }; a.cmp(&b) } } )
}
pub fn ord(input: DeriveInput) -> TokenStream {
	let b = cmp_body(&input);
	imp(&input, quote!(::core::cmp::Ord), quote!( fn cmp(&self, other: &Self) -> ::core::cmp::Ordering { #b } ))
}
pub fn partial_ord(input: DeriveInput) -> TokenStream {
	imp(
		&input,
		quote!(::core::cmp::PartialOrd),
		quote!( fn partial_cmp(&self, other: &Self) -> Option<::core::cmp::Ordering> { Some(::core::cmp::Ord::cmp(self, other)) } ),
	)
}
fn debug_body(input: &DeriveInput) -> TokenStream {
	let name = input.ident.to_string();
	let arms = variants(&input.data).into_iter().map(|(p, vn, f)| {
		let (pat, names) = bind(&f, "f");
		let title = if vn.is_empty() { name.clone() } else { vn };
		match &f {
			Fields::Named(n) => {
				let ids = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string());
				quote!( #p #pat => fmt.debug_struct(#title) #( .field(#ids, #names) )* .finish(), )
			},
			Fields::Unnamed(_) => quote!( #p #pat => fmt.debug_tuple(#title) #( .field(#names) )* .finish(), ),
			Fields::Unit => quote!( #p => fmt.write_str(#title), ),
		}
	});
	let arms: Vec<_> = arms.collect();
	if arms.is_empty() {
		return quote!( fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { Ok(()) } )
	}
	quote!( fn fmt(&self, fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { match self { #(#arms)* } } )
}
pub fn debug(input: DeriveInput) -> TokenStream {
	let b = debug_body(&input);
	imp(&input, quote!(::core::fmt::Debug), b)
}
/// `RuntimeDebug`: like the standard `Debug` derive (bounds on the field types that mention a parameter).
pub fn debug_bound(input: DeriveInput) -> TokenStream {
	let mut i2 = input.clone();
	let names = type_params(&input.generics);
	let tys: Vec<Type> = all_fields(&input.data).into_iter().map(|f| f.ty).filter(|t| mentions(t, &names) && !mentions_ident(t, &input.ident)).collect();
	let w = i2.generics.make_where_clause();
	for t in tys {
		w.predicates.push(parse_quote!(#t: ::core::fmt::Debug));
	}
	let b = debug_body(&input);
	let g = strip(&i2);
	let (ig, _, wc) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	quote!( #[automatically_derived] #[allow(deprecated)] impl #ig ::core::fmt::Debug for #name #tg #wc { #b } )
}
pub fn default(input: DeriveInput) -> TokenStream {
	let body = match &input.data {
		Data::Struct(s) => {
			let b = build(&s.fields, s.fields.iter().map(|_| quote!(::core::default::Default::default())).collect());
			quote!( Self #b )
		},
		Data::Enum(e) => {
			let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).unwrap_or(&e.variants[0]);
			let i = &v.ident;
			let b = build(&v.fields, v.fields.iter().map(|_| quote!(::core::default::Default::default())).collect());
			quote!( Self::#i #b )
		},
		Data::Union(_) => quote!(),
	};
	imp(&input, quote!(::core::default::Default), quote!( fn default() -> Self { #body } ))
}

use proc_macro2::{Ident, TokenStream};
use quote::quote;
use std::collections::HashSet;
use syn::visit::Visit;
use syn::*;

/// Names of the type parameters of `g`.
pub fn type_params(g: &Generics) -> HashSet<String> {
	g.type_params().map(|p| p.ident.to_string()).collect()
}

struct Finder<'a> {
	names: &'a HashSet<String>,
	found: bool,
}
impl<'a, 'b> Visit<'b> for Finder<'a> {
	fn visit_path(&mut self, p: &'b Path) {
		if let Some(s) = p.segments.first() {
			if p.leading_colon.is_none() && self.names.contains(&s.ident.to_string()) {
				self.found = true;
			}
		}
		visit::visit_path(self, p)
	}
}
pub fn mentions(ty: &Type, names: &HashSet<String>) -> bool {
	let mut f = Finder { names, found: false };
	f.visit_type(ty);
	f.found
}

/// Does the type mention the identifier anywhere (to leave out recursive bounds)?
pub fn mentions_ident(ty: &Type, name: &Ident) -> bool {
	struct F<'a>(&'a Ident, bool);
	impl<'a, 'b> Visit<'b> for F<'a> {
		fn visit_ident(&mut self, i: &'b Ident) {
			if i == self.0 {
				self.1 = true
			}
		}
	}
	let mut f = F(name, false);
	f.visit_type(ty);
	f.1
}

pub fn all_fields(data: &Data) -> Vec<Field> {
	match data {
		Data::Struct(s) => s.fields.iter().cloned().collect(),
		Data::Enum(e) => e.variants.iter().flat_map(|v| v.fields.iter().cloned()).collect(),
		Data::Union(_) => vec![],
	}
}

/// `#[codec(..)]` options of one field or variant.
#[derive(Default)]
pub struct CodecAttr {
	pub compact: bool,
	pub skip: bool,
	pub index: Option<TokenStream>,
}
pub fn codec_attr(attrs: &[Attribute]) -> CodecAttr {
	let mut r = CodecAttr::default();
	for a in attrs {
		if a.path().is_ident("codec") {
			let _ = a.parse_nested_meta(|m| {
				if m.path.is_ident("compact") {
					r.compact = true;
				} else if m.path.is_ident("skip") {
					r.skip = true;
				} else if m.path.is_ident("index") {
					let v: Expr = m.value()?.parse()?;
					r.index = Some(quote!(#v));
				} else if m.input.peek(token::Paren) {
					let content;
					parenthesized!(content in m.input);
					let _: TokenStream = content.parse()?;
				} else if m.input.peek(Token![=]) {
					let _: Expr = m.value()?.parse()?;
				}
				Ok(())
			});
		}
	}
	r
}

/// Binding names for the fields, and a pattern that binds them.
pub fn bind(fields: &Fields, prefix: &str) -> (TokenStream, Vec<Ident>) {
	let names: Vec<Ident> = fields
		.iter()
		.enumerate()
		.map(|(i, _)| Ident::new(&format!("__{}{}", prefix, i), proc_macro2::Span::call_site()))
		.collect();
	let pat = match fields {
		Fields::Named(n) => {
			let ids = n.named.iter().map(|f| f.ident.clone().unwrap());
			quote!({ #( #ids: #names ),* })
		},
		Fields::Unnamed(_) => quote!(( #(#names),* )),
		Fields::Unit => quote!(),
	};
	(pat, names)
}

pub fn build(fields: &Fields, values: Vec<TokenStream>) -> TokenStream {
	match fields {
		Fields::Named(n) => {
			let ids = n.named.iter().map(|f| f.ident.clone().unwrap());
			quote!({ #( #ids: #values ),* })
		},
		Fields::Unnamed(_) => quote!(( #(#values),* )),
		Fields::Unit => quote!(),
	}
}

pub fn has_attr(attrs: &[Attribute], a: &str, b: &str) -> bool {
	attrs.iter().any(|x| {
		let s = &x.path().segments;
		s.len() == 2 && s[0].ident == a && s[1].ident == b
	})
}

/// Removes and returns all `#[pallet::name ...]` attributes.
pub fn take_pallet_attrs(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
	let mut out = vec![];
	attrs.retain(|x| {
		let s = &x.path().segments;
		if s.len() == 2 && s[0].ident == "pallet" {
			out.push((s[1].ident.to_string(), x.clone()));
			false
		} else {
			true
		}
	});
	out
}

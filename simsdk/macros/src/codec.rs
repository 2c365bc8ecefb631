use crate::util::*;
use proc_macro2::TokenStream;
use quote::quote;
use syn::*;

fn with_bounds(input: &DeriveInput, tr: TokenStream, skip_default: bool) -> Generics {
	let mut g = input.generics.clone();
	let names = type_params(&g);
	let mut extra: Vec<WherePredicate> = vec![];
	for f in all_fields(&input.data) {
		let a = codec_attr(&f.attrs);
		let ty = &f.ty;
		if !mentions(ty, &names) || mentions_ident(ty, &input.ident) {
			continue;
		}
		if a.skip {
			if skip_default {
				extra.push(parse_quote!(#ty: ::core::default::Default));
			}
			continue;
		}
		if a.compact {
			extra.push(parse_quote!(#ty: ::simsdk::codec::HasCompact));
		}
		extra.push(parse_quote!(#ty: #tr));
	}
	let w = g.make_where_clause();
	w.predicates.extend(extra);
	for p in &mut g.params {
		if let GenericParam::Type(t) = p {
			t.default = None;
		}
	}
	g
}

fn enc_field(a: &CodecAttr, ty: &Type, expr: TokenStream) -> TokenStream {
	if a.skip {
		quote!()
	} else if a.compact {
		quote!( ::simsdk::codec::Encode::encode_to(&::simsdk::codec::CompactRef::<#ty>(#expr), __dest); )
	} else {
		quote!( ::simsdk::codec::Encode::encode_to(#expr, __dest); )
	}
}

pub fn encode(input: DeriveInput) -> TokenStream {
	let g = with_bounds(&input, quote!(::simsdk::codec::Encode), false);
	let (ig, _, wc) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	let body = match &input.data {
		Data::Struct(s) => {
			let (pat, names) = bind(&s.fields, "f");
			let encs = s.fields.iter().zip(names.iter()).map(|(f, n)| enc_field(&codec_attr(&f.attrs), &f.ty, quote!(#n)));
			quote!( let Self #pat = self; #(#encs)* )
		},
		Data::Enum(e) => {
			let arms = variant_indices(e).into_iter().map(|(v, idx)| {
				let (pat, names) = bind(&v.fields, "f");
				let id = &v.ident;
				if codec_attr(&v.attrs).skip {
					return quote!( Self::#id { .. } => (), )
				}
				let encs = v.fields.iter().zip(names.iter()).map(|(f, n)| enc_field(&codec_attr(&f.attrs), &f.ty, quote!(#n)));
				quote!( Self::#id #pat => { __dest.push_byte(#idx as u8); #(#encs)* }, )
			});
			let arms: Vec<_> = arms.collect();
			if arms.is_empty() {
				quote!()
			} else {
				quote!( match self { #(#arms)* } )
			}
		},
		Data::Union(_) => quote!(compile_error!("union")),
	};
	quote!(
		#[automatically_derived] #[allow(deprecated, unused_variables, non_snake_case)]
		const _: () = {
			impl #ig ::simsdk::codec::Encode for #name #tg #wc {
				fn encode_to<__O: ::simsdk::codec::Output + ?Sized>(&self, __dest: &mut __O) { #body }
			}
			impl #ig ::simsdk::codec::EncodeLike for #name #tg #wc {}
		};
	)
}

pub fn variant_indices(e: &DataEnum) -> Vec<(&Variant, TokenStream)> {
	let mut next = 0usize;
	let mut out = vec![];
	for v in &e.variants {
		let a = codec_attr(&v.attrs);
		let idx = if let Some(i) = a.index {
			i
		} else if let Some((_, d)) = &v.discriminant {
			quote!(#d)
		} else {
			let i = next;
			quote!(#i)
		};
		if !a.skip {
			next += 1;
		}
		out.push((v, idx));
	}
	out
}

fn dec_field(a: &CodecAttr, ty: &Type) -> TokenStream {
	if a.skip {
		quote!(::core::default::Default::default())
	} else if a.compact {
		quote!( <::simsdk::codec::Compact<#ty> as ::simsdk::codec::Decode>::decode(__input)?.0 )
	} else {
		quote!( <#ty as ::simsdk::codec::Decode>::decode(__input)? )
	}
}

pub fn decode(input: DeriveInput) -> TokenStream {
	let g = with_bounds(&input, quote!(::simsdk::codec::Decode), true);
	let (ig, _, wc) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	let body = match &input.data {
		Data::Struct(s) => {
			let vals: Vec<_> = s.fields.iter().map(|f| dec_field(&codec_attr(&f.attrs), &f.ty)).collect();
			let b = build(&s.fields, vals);
			quote!( Ok(Self #b) )
		},
		Data::Enum(e) => {
			let arms = variant_indices(e).into_iter().filter(|(v, _)| !codec_attr(&v.attrs).skip).map(|(v, idx)| {
				let id = &v.ident;
				let vals: Vec<_> = v.fields.iter().map(|f| dec_field(&codec_attr(&f.attrs), &f.ty)).collect();
				let b = build(&v.fields, vals);
				quote!( if __b == (#idx as u8) { return Ok(Self::#id #b) } )
			});
			quote!( let __b = __input.read_byte()?; #(#arms)* Err(::simsdk::codec::Error::from("unknown variant")) )
		},
		Data::Union(_) => quote!(compile_error!("union")),
	};
	quote!(
		#[automatically_derived] #[allow(deprecated)]
		impl #ig ::simsdk::codec::Decode for #name #tg #wc {
			fn decode<__I: ::simsdk::codec::Input>(__input: &mut __I) -> ::core::result::Result<Self, ::simsdk::codec::Error> { #body }
		}
	)
}

pub fn max_encoded_len(input: DeriveInput) -> TokenStream {
	let g = with_bounds(&input, quote!(::simsdk::codec::MaxEncodedLen), false);
	let (ig, _, wc) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	let sum = |fields: &Fields| {
		let parts = fields.iter().filter(|f| !codec_attr(&f.attrs).skip).map(|f| {
			let ty = &f.ty;
			if codec_attr(&f.attrs).compact {
				quote!( .saturating_add(<::simsdk::codec::Compact<#ty> as ::simsdk::codec::MaxEncodedLen>::max_encoded_len()) )
			} else {
				quote!( .saturating_add(<#ty as ::simsdk::codec::MaxEncodedLen>::max_encoded_len()) )
			}
		});
		quote!( 0usize #(#parts)* )
	};
	let body = match &input.data {
		Data::Struct(s) => sum(&s.fields),
		Data::Enum(e) => {
			let vs = e.variants.iter().map(|v| sum(&v.fields));
			quote!( { let mut __m = 0usize; #( __m = __m.max(#vs); )* __m.saturating_add(1) } )
		},
		Data::Union(_) => quote!(0),
	};
	quote!(
		#[automatically_derived] #[allow(deprecated)]
		impl #ig ::simsdk::codec::MaxEncodedLen for #name #tg #wc {
			fn max_encoded_len() -> usize { #body }
		}
	)
}

pub fn type_info(input: DeriveInput) -> TokenStream {
	let mut g = input.generics.clone();
	for p in &mut g.params {
		if let GenericParam::Type(t) = p {
			t.default = None;
		}
	}
	let (ig, _, wc) = g.split_for_impl();
	let (_, tg, _) = input.generics.split_for_impl();
	let name = &input.ident;
	quote!(
		#[automatically_derived] #[allow(deprecated)]
		impl #ig ::simsdk::scale_info::TypeInfo for #name #tg #wc {
			type Identity = Self;
			fn type_info() -> ::simsdk::scale_info::Type { ::core::default::Default::default() }
		}
	)
}

pub fn compact_as(input: DeriveInput) -> TokenStream {
	let (ig, tg, wc) = input.generics.split_for_impl();
	let name = &input.ident;
	let f = all_fields(&input.data);
	let ty = &f[0].ty;
	let (get, make) = match &f[0].ident {
		Some(i) => (quote!(self.#i), quote!(Self { #i: x })),
		None => (quote!(self.0), quote!(Self(x))),
	};
	quote!(
		impl #ig ::simsdk::codec::CompactAs for #name #tg #wc {
			type As = #ty;
			fn encode_as(&self) -> &#ty { &#get }
			fn decode_from(x: #ty) -> ::core::result::Result<Self, ::simsdk::codec::Error> { Ok(#make) }
		}
	)
}

pub fn pallet_error(_input: DeriveInput) -> TokenStream {
	quote!()
}

/// `enumflags2::bitflags` on a `#[repr(uN)] enum` with explicit or implied power-of-two values.
pub fn bitflags(item: ItemEnum) -> Result<TokenStream> {
	let mut item = item;
	let repr: Ident = item
		.attrs
		.iter()
		.find(|a| a.path().is_ident("repr"))
		.and_then(|a| a.parse_args::<Ident>().ok())
		.unwrap_or_else(|| Ident::new("usize", proc_macro2::Span::call_site()));
	let mut next: u64 = 1;
	for v in &mut item.variants {
		if v.discriminant.is_none() {
			let lit = LitInt::new(&next.to_string(), proc_macro2::Span::call_site());
			v.discriminant = Some((Default::default(), parse_quote!(#lit)));
			next <<= 1;
		} else if let Some((_, Expr::Lit(ExprLit { lit: Lit::Int(i), .. }))) = &v.discriminant {
			next = i.base10_parse::<u64>().unwrap_or(1) << 1;
		}
	}
	let name = &item.ident;
	let vars: Vec<_> = item.variants.iter().map(|v| v.ident.clone()).collect();
	Ok(quote!(
		#item
		impl ::simsdk::enumflags2::BitFlag for #name {
			type Numeric = #repr;
			const ALL: #repr = 0 #( | (#name::#vars as #repr) )*;
			const NONE: #repr = 0;
			const LIST: &'static [Self] = &[ #( #name::#vars ),* ];
			fn bits(self) -> #repr { self as #repr }
		}
		impl ::core::ops::BitOr for #name {
			type Output = ::simsdk::enumflags2::BitFlags<#name>;
			fn bitor(self, o: Self) -> Self::Output { ::simsdk::enumflags2::BitFlags::from(self) | o }
		}
		impl ::core::ops::Not for #name {
			type Output = ::simsdk::enumflags2::BitFlags<#name>;
			fn not(self) -> Self::Output { !::simsdk::enumflags2::BitFlags::from(self) }
		}
	))
}

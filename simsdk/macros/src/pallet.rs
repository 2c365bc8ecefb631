//! `#[pallet]`: the parts of `frame_support::pallet` the Frequency sources use.
use crate::util::*;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote};
use syn::*;

struct CallFn {
	name: Ident,
	index: Option<TokenStream>,
	weight: Expr,
	args: Vec<(Ident, Type, bool)>,
	attrs: Vec<Attribute>,
	ret_unit: bool,
}

pub fn expand(mut item: ItemMod) -> Result<TokenStream> {
	let (brace, items) = item.content.take().ok_or_else(|| Error::new(Span::call_site(), "pallet module must be inline"))?;
	let mut out: Vec<TokenStream> = vec![];
	let mut tail: Vec<TokenStream> = vec![];

	// instance generics?
	let mut inst = false;
	for it in &items {
		if let Item::Struct(s) = it {
			if has_attr(&s.attrs, "pallet", "pallet") {
				inst = s.generics.type_params().count() > 1;
			}
		}
	}
	let (ig, ug, cfg) = if inst {
		(quote!(T: Config<I>, I: 'static), quote!(T, I), quote!(Config<I>))
	} else {
		(quote!(T: Config), quote!(T), quote!(Config))
	};
	let mut have_call = false;
	let mut have_hooks = false;
	let mut have_event = false;
	let mut is_system = false;

	for it in items {
		match it {
			Item::Trait(mut t) if has_attr(&t.attrs, "pallet", "config") => {
				if has_attr(&t.attrs, "pallet", "disable_frame_system_supertrait_check") {
					is_system = true;
				}
				take_pallet_attrs(&mut t.attrs);
				for ti in &mut t.items {
					match ti {
						TraitItem::Type(x) => {
							take_pallet_attrs(&mut x.attrs);
						},
						TraitItem::Const(x) => {
							take_pallet_attrs(&mut x.attrs);
						},
						TraitItem::Fn(x) => {
							take_pallet_attrs(&mut x.attrs);
						},
						_ => {},
					}
				}
				out.push(quote!(#t));
			},
			Item::Struct(mut s) if has_attr(&s.attrs, "pallet", "pallet") => {
				let pa = take_pallet_attrs(&mut s.attrs);
				let mut version: Option<TokenStream> = None;
				for (n, a) in &pa {
					if n == "storage_version" {
						version = Some(a.parse_args::<Expr>().map(|e| quote!(#e))?);
					}
				}
				let attrs = &s.attrs;
				let vis = &s.vis;
				let gens = &s.generics;
				let (vty, vexpr) = match version {
					Some(v) => (quote!(::simsdk::frame_support::traits::StorageVersion), v),
					None => (
						quote!(::simsdk::frame_support::traits::NoStorageVersionSet),
						quote!(::simsdk::frame_support::traits::NoStorageVersionSet),
					),
				};
				out.push(quote!(
					#(#attrs)*
					#[derive(::simsdk::macros::CloneNoBound, ::simsdk::macros::EqNoBound, ::simsdk::macros::PartialEqNoBound, ::simsdk::macros::DebugNoBound)]
					#vis struct Pallet #gens (::core::marker::PhantomData<(#ug)>);
				));
				tail.push(quote!(
					impl<#ig> ::simsdk::frame_support::traits::PalletInfoAccess for Pallet<#ug> {
						fn index() -> usize {
							<<T as ::simsdk::frame_system::Config>::PalletInfo as ::simsdk::frame_support::traits::PalletInfo>::index::<Self>().expect("pallet is part of the runtime")
						}
						fn name() -> &'static str {
							<<T as ::simsdk::frame_system::Config>::PalletInfo as ::simsdk::frame_support::traits::PalletInfo>::name::<Self>().expect("pallet is part of the runtime")
						}
						fn module_name() -> &'static str { module_path!() }
						fn crate_version() -> ::simsdk::frame_support::traits::CrateVersion { Default::default() }
					}
					impl<#ig> ::simsdk::frame_support::traits::GetStorageVersion for Pallet<#ug> {
						type CurrentStorageVersion = #vty;
						fn current_storage_version() -> Self::CurrentStorageVersion { #vexpr }
						fn on_chain_storage_version() -> ::simsdk::frame_support::traits::StorageVersion {
							::simsdk::frame_support::traits::StorageVersion::get::<Self>()
						}
					}
					impl<#ig> ::simsdk::frame_support::traits::OnGenesis for Pallet<#ug> {
						fn on_genesis() {
							let v: ::simsdk::frame_support::traits::StorageVersion = ::simsdk::frame_support::traits::CurrentVersion::as_version(&(#vexpr));
							v.put::<Self>();
						}
					}
				));
			},
			Item::Type(t) if has_attr(&t.attrs, "pallet", "storage") => {
				let (a, b) = storage(t, &ig, &ug, &cfg)?;
				out.push(a);
				tail.push(b);
			},
			Item::Fn(mut f) if has_attr(&f.attrs, "pallet", "type_value") => {
				take_pallet_attrs(&mut f.attrs);
				let name = &f.sig.ident;
				let (attrs, vis, block) = (&f.attrs, &f.vis, &f.block);
				let ret = match &f.sig.output {
					ReturnType::Type(_, t) => quote!(#t),
					_ => quote!(()),
				};
				let g = &f.sig.generics;
				let (gi, gt, wc) = g.split_for_impl();
				let ps: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
				out.push(quote!(
					#(#attrs)* #vis struct #name #gt (::core::marker::PhantomData<(#(#ps,)*)>);
					impl #gi ::simsdk::frame_support::traits::Get<#ret> for #name #gt #wc { fn get() -> #ret #block }
				));
			},
			Item::Impl(mut im) if has_attr(&im.attrs, "pallet", "call") => {
				have_call = true;
				take_pallet_attrs(&mut im.attrs);
				let (a, calls) = call_impl(im)?;
				out.push(a);
				tail.push(call_enum(calls, inst, &ig, &ug, &cfg));
			},
			Item::Impl(mut im) if has_attr(&im.attrs, "pallet", "hooks") => {
				have_hooks = true;
				take_pallet_attrs(&mut im.attrs);
				out.push(quote!(#im));
			},
			Item::Enum(mut e) if has_attr(&e.attrs, "pallet", "event") => {
				have_event = true;
				let pa = take_pallet_attrs(&mut e.attrs);
				let generic = e.generics.type_params().count() > 0;
				let eg = if generic { quote!(<#ug>) } else { quote!() };
				let igen = if generic { quote!(<#ig>) } else { quote!() };
				if generic {
					let ps: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
					e.variants.push(parse_quote!( #[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#ps,)*)>, ::simsdk::frame_support::Never) ));
				}
				out.push(quote!(
					#[derive(::simsdk::macros::CloneNoBound, ::simsdk::macros::EqNoBound, ::simsdk::macros::PartialEqNoBound, ::simsdk::macros::DebugNoBound,
						::simsdk::macros::Encode, ::simsdk::macros::Decode, ::simsdk::macros::TypeInfo)]
					#[allow(missing_docs)]
					#e
				));
				tail.push(quote!( impl #igen From<Event #eg> for () { fn from(_: Event #eg) {} } ));
				for (n, a) in &pa {
					if n == "generate_deposit" {
						let toks = match &a.meta {
							Meta::List(l) => l.tokens.clone(),
							_ => quote!(fn deposit_event),
						};
						tail.push(quote!(
							impl<#ig> Pallet<#ug> {
								#[allow(missing_docs, dead_code)]
								#toks (event: Event #eg) {
									let event: <T as #cfg>::RuntimeEvent = From::from(event);
									let event: <T as ::simsdk::frame_system::Config>::RuntimeEvent =
										::simsdk::frame_support::traits::IsType::<<T as ::simsdk::frame_system::Config>::RuntimeEvent>::into_ref(&event).clone();
									::simsdk::frame_system::Pallet::<T>::deposit_event(event)
								}
							}
						));
					}
				}
			},
			Item::Enum(mut e) if has_attr(&e.attrs, "pallet", "error") => {
				take_pallet_attrs(&mut e.attrs);
				out.push(error_enum(e, &ig, &ug));
			},
			Item::Enum(mut e) if has_attr(&e.attrs, "pallet", "composite_enum") => {
				take_pallet_attrs(&mut e.attrs);
				out.push(quote!(
					#[derive(Copy, Clone, Eq, PartialEq, PartialOrd, Ord, Debug, ::simsdk::macros::Encode, ::simsdk::macros::Decode, ::simsdk::macros::MaxEncodedLen, ::simsdk::macros::TypeInfo)]
					#e
				));
			},
			Item::Struct(mut s) if has_attr(&s.attrs, "pallet", "genesis_config") => {
				take_pallet_attrs(&mut s.attrs);
				s.attrs.retain(|a| !a.path().is_ident("serde"));
				for f in s.fields.iter_mut() {
					f.attrs.retain(|a| !a.path().is_ident("serde"));
				}
				out.push(quote!(#s));
			},
			Item::Enum(mut s) if has_attr(&s.attrs, "pallet", "genesis_config") => {
				take_pallet_attrs(&mut s.attrs);
				out.push(quote!(#s));
			},
			Item::Impl(mut im) => {
				take_pallet_attrs(&mut im.attrs);
				out.push(quote!(#im));
			},
			Item::Enum(mut e) => {
				take_pallet_attrs(&mut e.attrs);
				out.push(quote!(#e));
			},
			Item::Struct(mut e) => {
				take_pallet_attrs(&mut e.attrs);
				out.push(quote!(#e));
			},
			Item::Type(mut e) => {
				take_pallet_attrs(&mut e.attrs);
				out.push(quote!(#e));
			},
			other => out.push(quote!(#other)),
		}
	}
	let _ = (have_event, is_system);
	if !have_call {
		tail.push(call_enum(vec![], inst, &ig, &ug, &cfg));
	}
	if !have_hooks {
		tail.push(quote!( impl<#ig> ::simsdk::frame_support::traits::Hooks<::simsdk::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<#ug> {} ));
	}
	let _ = brace;
	let (attrs, vis, ident) = (&item.attrs, &item.vis, &item.ident);
	Ok(quote!( #(#attrs)* #vis mod #ident { #(#out)* #(#tail)* } ))
}

fn storage_kind(ty: &Type) -> Result<(String, TypePath)> {
	if let Type::Path(p) = ty {
		let s = p.path.segments.last().unwrap();
		return Ok((s.ident.to_string(), p.clone()))
	}
	Err(Error::new(Span::call_site(), "unsupported storage type"))
}

fn order(kind: &str) -> &'static [&'static str] {
	match kind {
		"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
		"StorageMap" | "CountedStorageMap" => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		_ => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
	}
}

/// Positional generic arguments after the prefix.
fn storage_args(kind: &str, p: &TypePath, skip_first: bool) -> Vec<TokenStream> {
	let seg = p.path.segments.last().unwrap();
	let mut pos = vec![];
	let mut named = vec![];
	if let PathArguments::AngleBracketed(a) = &seg.arguments {
		for x in &a.args {
			match x {
				GenericArgument::AssocType(t) => named.push((t.ident.to_string(), { let ty = &t.ty; quote!(#ty) })),
				o => pos.push(quote!(#o)),
			}
		}
	}
	if skip_first && !pos.is_empty() {
		pos.remove(0);
	}
	if !named.is_empty() {
		for n in order(kind) {
			if let Some((_, t)) = named.iter().find(|(k, _)| k == n) {
				pos.push(t.clone());
			}
		}
	}
	pos
}

fn storage(mut t: ItemType, ig: &TokenStream, ug: &TokenStream, _cfg: &TokenStream) -> Result<(TokenStream, TokenStream)> {
	let pa = take_pallet_attrs(&mut t.attrs);
	let (kind, tp) = storage_kind(&t.ty)?;
	let named_only = {
		let seg = tp.path.segments.last().unwrap();
		match &seg.arguments {
			PathArguments::AngleBracketed(a) => a.args.iter().all(|x| matches!(x, GenericArgument::AssocType(_))),
			_ => true,
		}
	};
	let args = storage_args(&kind, &tp, !named_only);
	let name = &t.ident;
	let mut prefix_name = name.to_string();
	for (n, a) in &pa {
		if n == "storage_prefix" {
			if let Meta::NameValue(v) = &a.meta {
				if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &v.value {
					prefix_name = s.value();
				}
			}
		}
	}
	let prefix = format_ident!("_GeneratedPrefixForStorage{}", name);
	let vis = &t.vis;
	let attrs = &t.attrs;
	let cfgs: Vec<_> = attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
	let kid = format_ident!("{}", kind);
	let tg = &t.generics;
	let strct = quote!(
		#(#attrs)* #vis type #name #tg = ::simsdk::frame_support::storage::types::#kid<#prefix<#ug>, #(#args),*>;
		#(#cfgs)* #[doc(hidden)] pub struct #prefix<#ug>(::core::marker::PhantomData<(#ug)>);
	);
	let mut tail = quote!(
		#(#cfgs)*
		impl<#ig> ::simsdk::frame_support::traits::StorageInstance for #prefix<#ug> {
			fn pallet_prefix() -> &'static str {
				<<T as ::simsdk::frame_system::Config>::PalletInfo as ::simsdk::frame_support::traits::PalletInfo>::name::<Pallet<#ug>>().expect("pallet is part of the runtime")
			}
			const STORAGE_PREFIX: &'static str = #prefix_name;
		}
	);
	for (n, a) in &pa {
		if n != "getter" {
			continue
		}
		// #[pallet::getter(fn name)]
		let gname: Ident = a.parse_args_with(|input: parse::ParseStream| {
			let _: Token![fn] = input.parse()?;
			input.parse()
		})?;
		let full = quote!(#name<#ug>);
		let f = match kind.as_str() {
			"StorageValue" => quote!(
				pub fn #gname() -> <#full as ::simsdk::frame_support::storage::types::ValueShape>::Query { <#full>::get() }
			),
			"StorageMap" | "CountedStorageMap" => quote!(
				pub fn #gname<KArg: ::simsdk::codec::EncodeLike<<#full as ::simsdk::frame_support::storage::types::MapShape>::Key>>(k: KArg)
					-> <#full as ::simsdk::frame_support::storage::types::MapShape>::Query { <#full>::get(k) }
			),
			"StorageDoubleMap" => quote!(
				pub fn #gname<
					KArg1: ::simsdk::codec::EncodeLike<<#full as ::simsdk::frame_support::storage::types::DoubleMapShape>::Key1>,
					KArg2: ::simsdk::codec::EncodeLike<<#full as ::simsdk::frame_support::storage::types::DoubleMapShape>::Key2>,
				>(k1: KArg1, k2: KArg2)
					-> <#full as ::simsdk::frame_support::storage::types::DoubleMapShape>::Query { <#full>::get(k1, k2) }
			),
			_ => quote!(
				pub fn #gname<KArg>(k: KArg) -> <#full as ::simsdk::frame_support::storage::types::NMapShape>::Query
				where KArg: ::simsdk::frame_support::storage::types::EncodeLikeTuple<<<#full as ::simsdk::frame_support::storage::types::NMapShape>::KeyGen as ::simsdk::frame_support::storage::types::KeyGenerator>::KArg>
					+ ::simsdk::frame_support::storage::types::TupleToEncodedIter
				{ <#full>::get(k) }
			),
		};
		tail.extend(quote!( #(#cfgs)* impl<#ig> Pallet<#ug> { #[allow(missing_docs, dead_code)] #f } ));
	}
	Ok((strct, tail))
}

fn call_impl(mut im: ItemImpl) -> Result<(TokenStream, Vec<CallFn>)> {
	let mut calls = vec![];
	for it in &mut im.items {
		if let ImplItem::Fn(f) = it {
			let pa = take_pallet_attrs(&mut f.attrs);
			let mut index = None;
			let mut weight: Option<Expr> = None;
			for (n, a) in &pa {
				match n.as_str() {
					"call_index" => index = Some({ let e: Expr = a.parse_args()?; quote!(#e) }),
					"weight" => {
						weight = Some(match &a.meta {
							Meta::List(l) => {
								let t = &l.tokens;
								// `#[pallet::weight(a, b)]` never occurs, but `((w, p))` and `{ .. }` do
								parse2::<Expr>(quote!({ #t }))?
							},
							_ => parse_quote!(0u64),
						})
					},
					_ => {},
				}
			}
			let mut args = vec![];
			for (i, inp) in f.sig.inputs.iter_mut().enumerate() {
				if let FnArg::Typed(pt) = inp {
					let pa = take_pallet_attrs(&mut pt.attrs);
					if i == 0 {
						continue
					}
					let id = match &*pt.pat {
						Pat::Ident(p) => p.ident.clone(),
						_ => return Err(Error::new(Span::call_site(), "call argument must be an identifier")),
					};
					args.push((id, (*pt.ty).clone(), pa.iter().any(|(n, _)| n == "compact")));
				}
			}
			let attrs = f
				.attrs
				.iter()
				.filter(|a| a.path().is_ident("cfg") || a.path().is_ident("allow") || a.path().is_ident("deprecated") || a.path().is_ident("doc"))
				.cloned()
				.collect();
			if let ReturnType::Type(_, rt) = &f.sig.output {
				let block = &f.block;
				f.block = parse_quote!({ ::simsdk::storage::with_storage_layer(|| -> #rt #block) });
			}
			calls.push(CallFn {
				name: f.sig.ident.clone(),
				index,
				weight: weight.unwrap_or_else(|| parse_quote!(0u64)),
				args,
				attrs,
				ret_unit: false,
			});
		}
	}
	Ok((quote!(#[allow(deprecated)] #im), calls))
}

fn call_enum(calls: Vec<CallFn>, inst: bool, ig: &TokenStream, ug: &TokenStream, _cfg: &TokenStream) -> TokenStream {
	let gen_decl = if inst { quote!(T: Config<I>, I: 'static = ()) } else { quote!(T: Config) };
	let mut next = quote!(0u8);
	let mut variants = vec![];
	let mut info = vec![];
	let mut disp = vec![];
	let mut names = vec![];
	let mut idxs = vec![];
	for (i, c) in calls.iter().enumerate() {
		let n = &c.name;
		let idx = c.index.clone().unwrap_or_else(|| {
			let i = i as u8;
			quote!(#i)
		});
		next = idx.clone();
		let attrs = &c.attrs;
		let cfgs: Vec<_> = attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
		let ids: Vec<_> = c.args.iter().map(|a| a.0.clone()).collect();
		let tys: Vec<_> = c.args.iter().map(|a| a.1.clone()).collect();
		let comp: Vec<_> = c.args.iter().map(|a| if a.2 { quote!(#[codec(compact)]) } else { quote!() }).collect();
		variants.push(quote!( #(#attrs)* #[codec(index = #idx)] #n { #( #[allow(missing_docs)] #comp #ids: #tys ),* } ));
		let w = &c.weight;
		info.push(quote!( #(#cfgs)* Self::#n { #( ref #ids ),* } => { let __w = #w; ::simsdk::frame_support::dispatch::IntoDispatchInfo::into_dispatch_info(__w) } ));
		let _ = c.ret_unit;
		disp.push(quote!( #(#cfgs)* Self::#n { #( #ids ),* } => <Pallet<#ug>>::#n(origin, #(#ids),*).map(Into::into).map_err(Into::into), ));
		let s = n.to_string();
		names.push(quote!( #(#cfgs)* Self::#n { .. } => #s, ));
		idxs.push(quote!( #(#cfgs)* Self::#n { .. } => #idx as u8, ));
	}
	let _ = next;
	let all: Vec<String> = calls.iter().map(|c| c.name.to_string()).collect();
	quote!(
		#[derive(::simsdk::macros::CloneNoBound, ::simsdk::macros::EqNoBound, ::simsdk::macros::PartialEqNoBound, ::simsdk::macros::DebugNoBound,
			::simsdk::macros::Encode, ::simsdk::macros::Decode, ::simsdk::macros::TypeInfo)]
		#[allow(non_camel_case_types, missing_docs, deprecated)]
		pub enum Call<#gen_decl> {
			#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#ug)>, ::simsdk::frame_support::Never),
			#(#variants),*
		}
		#[allow(deprecated, unused_variables, clippy::all)]
		impl<#ig> ::simsdk::frame_support::dispatch::GetDispatchInfo for Call<#ug> {
			fn get_dispatch_info(&self) -> ::simsdk::frame_support::dispatch::DispatchInfo {
				match *self {
					#(#info)*
					Self::__Ignore(..) => unreachable!(),
				}
			}
		}
		#[allow(deprecated)]
		impl<#ig> ::simsdk::frame_support::traits::UnfilteredDispatchable for Call<#ug> {
			type RuntimeOrigin = <T as ::simsdk::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::simsdk::frame_support::dispatch::DispatchResultWithPostInfo {
				::simsdk::storage::dispatch_layer(|| match self {
					#(#disp)*
					Self::__Ignore(..) => { let _ = origin; unreachable!() },
				})
			}
		}
		#[allow(deprecated)]
		impl<#ig> ::simsdk::frame_support::traits::GetCallName for Call<#ug> {
			fn get_call_names() -> &'static [&'static str] { &[ #(#all),* ] }
			fn get_call_name(&self) -> &'static str { match self { #(#names)* Self::__Ignore(..) => unreachable!() } }
		}
		#[allow(deprecated)]
		impl<#ig> ::simsdk::frame_support::traits::GetCallIndex for Call<#ug> {
			fn get_call_index(&self) -> u8 { match self { #(#idxs)* Self::__Ignore(..) => unreachable!() } }
		}
		impl<#ig> ::simsdk::frame_support::traits::Callable<T> for Pallet<#ug> { type RuntimeCall = Call<#ug>; }
	)
}

fn error_enum(mut e: ItemEnum, ig: &TokenStream, ug: &TokenStream) -> TokenStream {
	let gp: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
	let names: Vec<_> = e
		.variants
		.iter()
		.map(|v| {
			let i = &v.ident;
			let s = i.to_string();
			let cfgs: Vec<_> = v.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
			quote!( #(#cfgs)* Self::#i { .. } => #s, )
		})
		.collect();
	e.variants.insert(
		0,
		parse_quote!( #[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#gp,)*)>, ::simsdk::frame_support::Never) ),
	);
	quote!(
		#[derive(::simsdk::macros::Encode, ::simsdk::macros::Decode, ::simsdk::macros::TypeInfo)]
		#[allow(missing_docs)]
		#e
		const _: () = {
			impl<#(#gp),*> Error<#(#gp),*> {
				#[doc(hidden)]
				pub fn as_str(&self) -> &'static str { match self { Self::__Ignore(..) => unreachable!(), #(#names)* } }
			}
			impl<#(#gp),*> ::core::fmt::Debug for Error<#(#gp),*> {
				fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) }
			}
			impl<#(#gp),*> From<Error<#(#gp),*>> for &'static str {
				fn from(e: Error<#(#gp),*>) -> &'static str { e.as_str() }
			}
			impl<#ig> From<Error<#ug>> for ::simsdk::sp_runtime::DispatchError {
				fn from(e: Error<#ug>) -> Self {
					let index = <<T as ::simsdk::frame_system::Config>::PalletInfo as ::simsdk::frame_support::traits::PalletInfo>::index::<Pallet<#ug>>().expect("pallet is part of the runtime") as u8;
					let mut enc = ::simsdk::codec::Encode::encode(&e);
					enc.resize(4, 0);
					::simsdk::sp_runtime::DispatchError::Module(::simsdk::sp_runtime::ModuleError {
						index,
						error: [enc[0], enc[1], enc[2], enc[3]],
						message: Some(e.as_str()),
					})
				}
			}
		};
	)
}

/// `#[storage_alias] type X<T: Config> = StorageMap<Pallet<T>, ...>` (or an identifier as prefix).
pub fn storage_alias(mut t: ItemType) -> Result<TokenStream> {
	let (kind, tp) = storage_kind(&t.ty)?;
	let seg = tp.path.segments.last().unwrap();
	let first = match &seg.arguments {
		PathArguments::AngleBracketed(a) => a.args.first().cloned(),
		_ => None,
	};
	let first = first.ok_or_else(|| Error::new(Span::call_site(), "storage_alias without prefix"))?;
	let args = storage_args(&kind, &tp, true);
	let name = &t.ident;
	let sname = name.to_string();
	let prefix = format_ident!("__{}_Storage_Instance", name);
	let vis = t.vis.clone();
	t.attrs.retain(|a| !a.path().is_ident("storage_alias"));
	let attrs = &t.attrs;
	let kid = format_ident!("{}", kind);
	let tg = &t.generics;
	let (gi, gt, wc) = tg.split_for_impl();
	let ps: Vec<_> = tg.type_params().map(|p| p.ident.clone()).collect();
	// a bare identifier that is not a type parameter is the literal prefix
	let bare = match &first {
		GenericArgument::Type(Type::Path(p)) if p.path.get_ident().is_some() => Some(p.path.get_ident().unwrap().clone()),
		_ => None,
	};
	let prefix_expr = match bare {
		Some(i) if !ps.contains(&i) => {
			let s = i.to_string();
			quote!(#s)
		},
		_ => quote!(<#first as ::simsdk::frame_support::traits::PalletInfoAccess>::name()),
	};
	let strip: Vec<TokenStream> = tg.params.iter().map(|p| match p { GenericParam::Type(t) => { let i = &t.ident; quote!(#i) }, o => quote!(#o) }).collect();
	let use_gt = if strip.is_empty() { quote!() } else { quote!(<#(#strip),*>) };
	Ok(quote!(
		#(#attrs)* #vis type #name #tg = ::simsdk::frame_support::storage::types::#kid<#prefix #use_gt, #(#args),*>;
		#[doc(hidden)] #[allow(non_camel_case_types)] #vis struct #prefix #use_gt (::core::marker::PhantomData<(#(#ps,)*)>);
		impl #gi ::simsdk::frame_support::traits::StorageInstance for #prefix #gt #wc {
			fn pallet_prefix() -> &'static str { #prefix_expr }
			const STORAGE_PREFIX: &'static str = #sname;
		}
	))
}

//! Procedural macros of the stand-in SDK.  They accept the syntax the Frequency sources use for the real
//! `frame_support` / `parity_scale_codec` / `scale_info` / `enumflags2` / `sp_api` macros and expand to code over `::simsdk`.
extern crate proc_macro;
mod apis;
mod codec;
mod nobound;
mod pallet;
mod runtime;
mod util;

use proc_macro::TokenStream;

macro_rules! derive {
	($name:ident, $fname:ident, $path:path $(, $attr:ident)*) => {
		#[proc_macro_derive($name, attributes($($attr),*))]
		pub fn $fname(input: TokenStream) -> TokenStream {
			let input = syn::parse_macro_input!(input as syn::DeriveInput);
			$path(input).into()
		}
	};
}

derive!(Encode, derive_encode, codec::encode, codec);
derive!(Decode, derive_decode, codec::decode, codec);
derive!(MaxEncodedLen, derive_mel, codec::max_encoded_len, codec, max_encoded_len_mod, max_encoded_len_crate);
derive!(TypeInfo, derive_type_info, codec::type_info, scale_info, codec);
derive!(CompactAs, derive_compact_as, codec::compact_as, codec);
derive!(PalletError, derive_pallet_error, codec::pallet_error, codec);

derive!(CloneNoBound, derive_clone_no_bound, nobound::clone);
derive!(EqNoBound, derive_eq_no_bound, nobound::eq);
derive!(PartialEqNoBound, derive_partial_eq_no_bound, nobound::partial_eq);
derive!(OrdNoBound, derive_ord_no_bound, nobound::ord);
derive!(PartialOrdNoBound, derive_partial_ord_no_bound, nobound::partial_ord);
derive!(DebugNoBound, derive_debug_no_bound, nobound::debug);
derive!(RuntimeDebugNoBound, derive_rt_debug_no_bound, nobound::debug);
derive!(DefaultNoBound, derive_default_no_bound, nobound::default, default);
derive!(RuntimeDebug, derive_rt_debug, nobound::debug_bound);

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let item = syn::parse_macro_input!(item as syn::ItemMod);
	pallet::expand(item).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_attribute]
pub fn storage_alias(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let item = syn::parse_macro_input!(item as syn::ItemType);
	pallet::storage_alias(item).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro]
pub fn construct_runtime(input: TokenStream) -> TokenStream {
	let input = syn::parse_macro_input!(input as runtime::RuntimeDef);
	runtime::expand(input).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro]
pub fn decl_runtime_apis(input: TokenStream) -> TokenStream {
	let f = syn::parse_macro_input!(input as syn::File);
	apis::decl(f).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro]
pub fn impl_runtime_apis(input: TokenStream) -> TokenStream {
	let f = syn::parse_macro_input!(input as syn::File);
	apis::implement(f).unwrap_or_else(|e| e.to_compile_error()).into()
}

#[proc_macro_attribute]
pub fn bitflags(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let item = syn::parse_macro_input!(item as syn::ItemEnum);
	codec::bitflags(item).unwrap_or_else(|e| e.to_compile_error()).into()
}

/// Attribute that leaves the item as it is (for `#[transactional]`, `#[require_transactional]`, ...).
#[proc_macro_attribute]
pub fn identity(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}

/// Dispatchables always run in a transaction here, so the requirement holds wherever it is stated.
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}

#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let f = syn::parse_macro_input!(item as syn::ItemFn);
	let (attrs, vis, sig, block) = (&f.attrs, &f.vis, &f.sig, &f.block);
	quote::quote!( #(#attrs)* #vis #sig { ::simsdk::storage::with_storage_layer(|| { #block }) } ).into()
}

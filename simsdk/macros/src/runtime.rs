//! `construct_runtime!`
use proc_macro2::{Span, TokenStream};
use quote::quote;
use syn::{
	parse::{Parse, ParseStream},
	*,
};

pub struct PalletDef {
	name: Ident,
	path: Path,
	inst: Option<Ident>,
	parts: Option<Vec<(String, bool, bool)>>,
	index: u8,
}
pub struct RuntimeDef {
	name: Ident,
	pallets: Vec<PalletDef>,
}

impl Parse for RuntimeDef {
	fn parse(input: ParseStream) -> Result<Self> {
		let _: Visibility = input.parse()?;
		if input.peek(Token![enum]) {
			let _: Token![enum] = input.parse()?;
		} else {
			let _: Token![struct] = input.parse()?;
		}
		let name: Ident = input.parse()?;
		if input.peek(Token![where]) {
			while !input.peek(token::Brace) {
				let _: proc_macro2::TokenTree = input.parse()?;
			}
		}
		let content;
		braced!(content in input);
		let mut pallets = vec![];
		let mut next = 0u8;
		while !content.is_empty() {
			let _attrs = content.call(Attribute::parse_outer)?;
			let pname: Ident = content.parse()?;
			let _: Token![:] = content.parse()?;
			// path segments until `::{`, `::<`, `,`, `=`
			let mut segs: Vec<Ident> = vec![];
			let mut inst = None;
			let mut parts = None;
			let mut lead = false;
			if content.peek(Token![::]) {
				let _: Token![::] = content.parse()?;
				lead = true;
			}
			segs.push(if content.peek(Token![crate]) {
				let c: Token![crate] = content.parse()?;
				Ident::new("crate", c.span)
			} else {
				content.parse()?
			});
			while content.peek(Token![::]) {
				let _: Token![::] = content.parse()?;
				if content.peek(token::Brace) {
					let p;
					braced!(p in content);
					let mut v = vec![];
					while !p.is_empty() {
						let id: Ident = p.call(<Ident as ext::IdentExt>::parse_any)?;
						let (mut g, mut gi) = (false, false);
						if p.peek(Token![<]) {
							let a: AngleBracketedGenericArguments = p.parse()?;
							g = true;
							gi = a.args.len() > 1;
						}
						v.push((id.to_string(), g, gi));
						if p.peek(Token![,]) {
							let _: Token![,] = p.parse()?;
						}
					}
					parts = Some(v);
					break
				} else if content.peek(Token![<]) {
					let a: AngleBracketedGenericArguments = content.parse()?;
					if let Some(GenericArgument::Type(Type::Path(p))) = a.args.first() {
						inst = p.path.get_ident().cloned();
					}
				} else {
					segs.push(content.parse()?);
				}
			}
			let path: Path = if lead { parse_quote!(:: #(#segs)::*) } else { parse_quote!(#(#segs)::*) };
			let mut index = next;
			if content.peek(Token![=]) {
				let _: Token![=] = content.parse()?;
				let l: LitInt = content.parse()?;
				index = l.base10_parse()?;
			}
			next = index.wrapping_add(1);
			if content.peek(Token![,]) {
				let _: Token![,] = content.parse()?;
			}
			pallets.push(PalletDef { name: pname, path, inst, parts, index });
		}
		Ok(RuntimeDef { name, pallets })
	}
}

impl PalletDef {
	fn has(&self, part: &str) -> bool {
		match &self.parts {
			Some(p) => p.iter().any(|x| x.0 == part),
			None => ["Pallet", "Call", "Event", "Storage"].contains(&part),
		}
	}
	fn gen(&self, part: &str) -> bool {
		match &self.parts {
			Some(p) => p.iter().any(|x| x.0 == part && x.1),
			None => true,
		}
	}
	fn args(&self, rt: &Ident) -> TokenStream {
		match &self.inst {
			Some(i) => {
				let p = &self.path;
				quote!(<#rt, #p::#i>)
			},
			None => quote!(<#rt>),
		}
	}
}

pub fn expand(def: RuntimeDef) -> Result<TokenStream> {
	let rt = &def.name;
	let mut out = quote!(
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, ::simsdk::macros::TypeInfo)]
		pub struct #rt;
	);
	let fs = quote!(::simsdk::frame_support);
	// pallet aliases and PalletInfo
	let mut pi_name = vec![];
	let mut pi_idx = vec![];
	let mut all = vec![];
	for p in &def.pallets {
		let (n, path, a) = (&p.name, &p.path, p.args(rt));
		let s = n.to_string();
		let idx = p.index as usize;
		out.extend(quote!( pub type #n = #path::Pallet #a; ));
		pi_name.push(quote!( if __t == ::core::any::TypeId::of::<#path::Pallet #a>() { return Some(#s) } ));
		pi_idx.push(quote!( if __t == ::core::any::TypeId::of::<#path::Pallet #a>() { return Some(#idx) } ));
		all.push(quote!(#path::Pallet #a));
	}
	out.extend(quote!(
		pub struct PalletInfo;
		impl #fs::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> { let __t = ::core::any::TypeId::of::<P>(); #(#pi_idx)* None }
			fn name<P: 'static>() -> Option<&'static str> { let __t = ::core::any::TypeId::of::<P>(); #(#pi_name)* None }
			fn module_name<P: 'static>() -> Option<&'static str> { Self::name::<P>() }
			fn crate_version<P: 'static>() -> Option<#fs::traits::CrateVersion> { None }
		}
		pub struct AllPalletsWithSystem;
		impl AllPalletsWithSystem {
			/// names in order
			pub const NAMES: &'static [&'static str] = &[ #( stringify!(#all) ),* ];
		}
		type __BN = ::simsdk::frame_system::pallet_prelude::BlockNumberFor<#rt>;
		impl #fs::traits::OnInitialize<__BN> for AllPalletsWithSystem {
			fn on_initialize(n: __BN) -> ::simsdk::sp_weights::Weight {
				let mut w = ::simsdk::sp_weights::Weight::zero();
				#( w = w.saturating_add(<#all as #fs::traits::Hooks<__BN>>::on_initialize(n)); )*
				w
			}
		}
		impl #fs::traits::OnFinalize<__BN> for AllPalletsWithSystem {
			fn on_finalize(n: __BN) { #( <#all as #fs::traits::Hooks<__BN>>::on_finalize(n); )* }
		}
		impl #fs::traits::OnIdle<__BN> for AllPalletsWithSystem {
			fn on_idle(n: __BN, mut rem: ::simsdk::sp_weights::Weight) -> ::simsdk::sp_weights::Weight {
				let mut w = ::simsdk::sp_weights::Weight::zero();
				#( { let u = <#all as #fs::traits::Hooks<__BN>>::on_idle(n, rem); rem = rem.saturating_sub(u); w = w.saturating_add(u); } )*
				w
			}
		}
		impl #fs::traits::OnRuntimeUpgrade for AllPalletsWithSystem {
			fn on_runtime_upgrade() -> ::simsdk::sp_weights::Weight {
				let mut w = ::simsdk::sp_weights::Weight::zero();
				#( w = w.saturating_add(<#all as #fs::traits::Hooks<__BN>>::on_runtime_upgrade()); )*
				w
			}
		}
		impl #fs::traits::OffchainWorker<__BN> for AllPalletsWithSystem {
			fn offchain_worker(n: __BN) { #( <#all as #fs::traits::Hooks<__BN>>::offchain_worker(n); )* }
		}
		impl #fs::traits::OnGenesis for AllPalletsWithSystem {
			fn on_genesis() { #( <#all as #fs::traits::OnGenesis>::on_genesis(); )* }
		}
		impl AllPalletsWithSystem {
			pub fn integrity_test() { #( <#all as #fs::traits::Hooks<__BN>>::integrity_test(); )* }
		}
	));
	// events
	let mut ev = vec![];
	let mut ev_from = vec![];
	for p in def.pallets.iter().filter(|p| p.has("Event")) {
		let (n, path) = (&p.name, &p.path);
		let a = if p.gen("Event") { p.args(rt) } else { quote!() };
		let idx = p.index;
		ev.push(quote!( #[codec(index = #idx)] #n(#path::Event #a) ));
		ev_from.push(quote!(
			impl From<#path::Event #a> for RuntimeEvent { fn from(e: #path::Event #a) -> Self { RuntimeEvent::#n(e) } }
			impl TryFrom<RuntimeEvent> for #path::Event #a { type Error = (); fn try_from(e: RuntimeEvent) -> Result<Self, ()> { #[allow(unreachable_patterns)] match e { RuntimeEvent::#n(x) => Ok(x), _ => Err(()) } } }
		));
	}
	out.extend(quote!(
		#[derive(Clone, PartialEq, Eq, Debug, ::simsdk::macros::Encode, ::simsdk::macros::Decode, ::simsdk::macros::TypeInfo)]
		pub enum RuntimeEvent { #(#ev),* }
		#(#ev_from)*
	));
	// calls
	let mut cv = vec![];
	let mut c_from = vec![];
	let (mut c_info, mut c_disp, mut c_name, mut c_pall) = (vec![], vec![], vec![], vec![]);
	for p in def.pallets.iter().filter(|p| p.has("Call")) {
		let (n, path, a) = (&p.name, &p.path, p.args(rt));
		let idx = p.index;
		let s = n.to_string();
		cv.push(quote!( #[codec(index = #idx)] #n(#path::Call #a) ));
		c_from.push(quote!(
			impl From<#path::Call #a> for RuntimeCall { fn from(e: #path::Call #a) -> Self { RuntimeCall::#n(e) } }
			impl #fs::traits::IsSubType<#path::Call #a> for RuntimeCall {
				fn is_sub_type(&self) -> Option<&#path::Call #a> { #[allow(unreachable_patterns)] match self { RuntimeCall::#n(c) => Some(c), _ => None } }
			}
		));
		c_info.push(quote!( RuntimeCall::#n(c) => #fs::dispatch::GetDispatchInfo::get_dispatch_info(c), ));
		c_disp.push(quote!( RuntimeCall::#n(c) => #fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, origin), ));
		c_name.push(quote!( RuntimeCall::#n(c) => #fs::traits::GetCallName::get_call_name(c), ));
		c_pall.push(quote!( RuntimeCall::#n(_) => #s, ));
	}
	out.extend(quote!(
		#[derive(Clone, PartialEq, Eq, Debug, ::simsdk::macros::Encode, ::simsdk::macros::Decode, ::simsdk::macros::TypeInfo)]
		pub enum RuntimeCall { #(#cv),* }
		#(#c_from)*
		impl #fs::dispatch::GetDispatchInfo for RuntimeCall { fn get_dispatch_info(&self) -> #fs::dispatch::DispatchInfo { match self { #(#c_info)* } } }
		impl #fs::traits::GetCallMetadata for RuntimeCall {
			fn get_call_metadata(&self) -> #fs::traits::CallMetadata {
				let function_name = match self { #(#c_name)* };
				let pallet_name = match self { #(#c_pall)* };
				#fs::traits::CallMetadata { function_name, pallet_name }
			}
		}
		impl #fs::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo { match self { #(#c_disp)* } }
		}
		impl ::simsdk::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = #fs::dispatch::DispatchInfo;
			type PostInfo = #fs::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> #fs::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as #fs::traits::OriginTrait>::filter_call(&origin, &self) {
					return Err(::simsdk::frame_system::Error::<#rt>::CallFiltered.into());
				}
				#fs::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}
	));
	// origins
	let mut ov = vec![];
	let mut o_from = vec![];
	for p in def.pallets.iter().filter(|p| p.has("Origin")) {
		let (n, path) = (&p.name, &p.path);
		let a = if p.gen("Origin") { p.args(rt) } else { quote!() };
		let idx = p.index;
		ov.push(quote!( #[codec(index = #idx)] #n(#path::Origin #a) ));
		o_from.push(quote!(
			impl From<#path::Origin #a> for OriginCaller { fn from(o: #path::Origin #a) -> Self { OriginCaller::#n(o) } }
			impl From<#path::Origin #a> for RuntimeOrigin { fn from(o: #path::Origin #a) -> Self { RuntimeOrigin::new(OriginCaller::#n(o)) } }
			impl From<RuntimeOrigin> for Result<#path::Origin #a, RuntimeOrigin> {
				fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::#n(l) => Ok(l), caller => Err(RuntimeOrigin { caller, filter: o.filter }) } }
			}
		));
	}
	out.extend(quote!(
		type __Acc = <#rt as ::simsdk::frame_system::Config>::AccountId;
		#[derive(Clone, PartialEq, Eq, Debug, ::simsdk::macros::Encode, ::simsdk::macros::Decode, ::simsdk::macros::TypeInfo)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller { #[codec(index = 0)] system(::simsdk::frame_system::RawOrigin<__Acc>), #(#ov),* }
		impl From<::simsdk::frame_system::RawOrigin<__Acc>> for OriginCaller { fn from(o: ::simsdk::frame_system::RawOrigin<__Acc>) -> Self { OriginCaller::system(o) } }
		#[derive(Clone)]
		pub struct RuntimeOrigin { pub caller: OriginCaller, filter: ::std::rc::Rc<dyn Fn(&RuntimeCall) -> bool> }
		impl ::core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "Origin({:?})", self.caller) } }
		impl RuntimeOrigin {
			fn new(caller: OriginCaller) -> Self {
				let mut o = RuntimeOrigin { caller, filter: ::std::rc::Rc::new(|_| true) };
				#fs::traits::OriginTrait::reset_filter(&mut o);
				o
			}
			pub fn root() -> Self { ::simsdk::frame_system::RawOrigin::Root.into() }
			pub fn none() -> Self { ::simsdk::frame_system::RawOrigin::None.into() }
			pub fn signed(by: __Acc) -> Self { ::simsdk::frame_system::RawOrigin::Signed(by).into() }
		}
		impl From<::simsdk::frame_system::RawOrigin<__Acc>> for RuntimeOrigin { fn from(o: ::simsdk::frame_system::RawOrigin<__Acc>) -> Self {
			// root bypasses the base filter, as in the real implementation
			let root = o == ::simsdk::frame_system::RawOrigin::Root;
			let mut r = RuntimeOrigin { caller: OriginCaller::system(o), filter: ::std::rc::Rc::new(|_| true) };
			if !root { #fs::traits::OriginTrait::reset_filter(&mut r); }
			r
		} }
		impl From<Option<__Acc>> for RuntimeOrigin { fn from(o: Option<__Acc>) -> Self { ::simsdk::frame_system::RawOrigin::from(o).into() } }
		impl From<OriginCaller> for RuntimeOrigin { fn from(o: OriginCaller) -> Self { match o { OriginCaller::system(r) => r.into(), #[allow(unreachable_patterns)] o => RuntimeOrigin::new(o) } } }
		impl From<RuntimeOrigin> for Result<::simsdk::frame_system::RawOrigin<__Acc>, RuntimeOrigin> {
			fn from(o: RuntimeOrigin) -> Self { #[allow(unreachable_patterns)] match o.caller { OriginCaller::system(l) => Ok(l), caller => Err(RuntimeOrigin { caller, filter: o.filter }) } }
		}
		#(#o_from)*
		impl #fs::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = __Acc;
			fn add_filter(&mut self, filter: impl Fn(&RuntimeCall) -> bool + 'static) {
				let f = self.filter.clone();
				self.filter = ::std::rc::Rc::new(move |c| f(c) && filter(c));
			}
			fn reset_filter(&mut self) {
				let f = <<#rt as ::simsdk::frame_system::Config>::BaseCallFilter as #fs::traits::Contains<RuntimeCall>>::contains;
				self.filter = ::std::rc::Rc::new(move |c| f(c));
			}
			fn set_caller_from(&mut self, other: impl Into<Self>) { self.caller = other.into().caller; }
			fn filter_call(&self, call: &RuntimeCall) -> bool {
				match self.caller {
					OriginCaller::system(::simsdk::frame_system::RawOrigin::Root) => true,
					_ => (self.filter)(call),
				}
			}
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn none() -> Self { ::simsdk::frame_system::RawOrigin::None.into() }
			fn root() -> Self { ::simsdk::frame_system::RawOrigin::Root.into() }
			fn signed(by: __Acc) -> Self { ::simsdk::frame_system::RawOrigin::Signed(by).into() }
			fn as_signed(self) -> Option<__Acc> { #[allow(unreachable_patterns)] match self.caller { OriginCaller::system(::simsdk::frame_system::RawOrigin::Signed(a)) => Some(a), _ => None } }
			fn as_system_ref(&self) -> Option<&::simsdk::frame_system::RawOrigin<__Acc>> { #[allow(unreachable_patterns)] match &self.caller { OriginCaller::system(r) => Some(r), _ => None } }
		}
	));
	// reasons
	for kind in ["FreezeReason", "HoldReason"] {
		let mut v = vec![];
		let mut f = vec![];
		for p in def.pallets.iter().filter(|p| p.has(kind)) {
			let (n, path) = (&p.name, &p.path);
			let idx = p.index;
			let k = Ident::new(kind, Span::call_site());
			let rk = Ident::new(&format!("Runtime{}", kind), Span::call_site());
			v.push(quote!( #[codec(index = #idx)] #n(#path::#k) ));
			f.push(quote!( impl From<#path::#k> for #rk { fn from(r: #path::#k) -> Self { #rk::#n(r) } } ));
		}
		let rk = Ident::new(&format!("Runtime{}", kind), Span::call_site());
		out.extend(quote!(
			#[derive(Copy, Clone, Eq, PartialEq, PartialOrd, Ord, Debug, ::simsdk::macros::Encode, ::simsdk::macros::Decode, ::simsdk::macros::MaxEncodedLen, ::simsdk::macros::TypeInfo)]
			pub enum #rk { #(#v),* }
			#(#f)*
		));
	}
	// ValidateUnsigned
	let mut vu = vec![];
	let mut pd = vec![];
	for p in def.pallets.iter().filter(|p| p.has("ValidateUnsigned")) {
		let (n, path, a) = (&p.name, &p.path, p.args(rt));
		vu.push(quote!( RuntimeCall::#n(c) => <#path::Pallet #a as ::simsdk::sp_runtime::traits::ValidateUnsigned>::validate_unsigned(source, c), ));
		pd.push(quote!( RuntimeCall::#n(c) => <#path::Pallet #a as ::simsdk::sp_runtime::traits::ValidateUnsigned>::pre_dispatch(c), ));
	}
	out.extend(quote!(
		impl ::simsdk::sp_runtime::traits::ValidateUnsigned for #rt {
			type Call = RuntimeCall;
			fn validate_unsigned(source: ::simsdk::sp_runtime::transaction_validity::TransactionSource, call: &RuntimeCall) -> ::simsdk::sp_runtime::transaction_validity::TransactionValidity {
				match call { #(#vu)* #[allow(unreachable_patterns)] _ => ::simsdk::sp_runtime::transaction_validity::UnknownTransaction::NoUnsignedValidator.into() }
			}
			fn pre_dispatch(call: &RuntimeCall) -> Result<(), ::simsdk::sp_runtime::transaction_validity::TransactionValidityError> {
				match call { #(#pd)* #[allow(unreachable_patterns)] _ => Ok(()) }
			}
		}
	));
	// genesis
	let mut gf = vec![];
	let mut gb = vec![];
	for p in def.pallets.iter().filter(|p| p.has("Config")) {
		let path = &p.path;
		let mut snake = String::new();
		for (i, c) in p.name.to_string().chars().enumerate() {
			if c.is_uppercase() && i > 0 {
				snake.push('_');
			}
			snake.extend(c.to_lowercase());
		}
		let id = Ident::new(&snake, Span::call_site());
		let a = if p.gen("Config") { p.args(rt) } else { quote!() };
		gf.push(quote!( pub #id: #path::GenesisConfig #a ));
		gb.push(quote!( #fs::traits::BuildGenesisConfig::build(&self.#id); ));
	}
	out.extend(quote!(
		#[derive(Default)]
		pub struct RuntimeGenesisConfig { #(#gf),* }
		impl #fs::traits::BuildGenesisConfig for RuntimeGenesisConfig {
			fn build(&self) {
				#(#gb)*
				<AllPalletsWithSystem as #fs::traits::OnGenesis>::on_genesis();
			}
		}
		impl ::simsdk::sp_runtime::BuildStorage for RuntimeGenesisConfig {
			fn assimilate_storage(&self, s: &mut ::simsdk::sp_core::storage::Storage) -> Result<(), String> {
				::simsdk::storage::assimilate(s, || #fs::traits::BuildGenesisConfig::build(self));
				Ok(())
			}
		}
	));
	Ok(out)
}

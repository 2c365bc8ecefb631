//! `scale_info`: metadata is not part of the simulation, only the trait bounds are kept.
pub use crate::macros::TypeInfo;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Type;
pub trait TypeInfo {
	type Identity: ?Sized;
	fn type_info() -> Type;
}
pub trait StaticTypeInfo: TypeInfo + 'static {}
impl<T: TypeInfo + 'static> StaticTypeInfo for T {}
macro_rules! ti {
	($($t:ty),*) => { $( impl TypeInfo for $t { type Identity = $t; fn type_info() -> Type { Type } } )* };
}
ti!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, str, String, (), usize);
impl<T: TypeInfo> TypeInfo for Vec<T> {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<T: TypeInfo> TypeInfo for Option<T> {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<T: TypeInfo, E: TypeInfo> TypeInfo for Result<T, E> {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<T: ?Sized> TypeInfo for Box<T> {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<T: ?Sized> TypeInfo for &T {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<T> TypeInfo for std::marker::PhantomData<T> {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<T: TypeInfo, const N: usize> TypeInfo for [T; N] {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<T: TypeInfo> TypeInfo for [T] {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<K, V> TypeInfo for std::collections::BTreeMap<K, V> {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<K> TypeInfo for std::collections::BTreeSet<K> {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
impl<T> TypeInfo for crate::codec::Compact<T> {
	type Identity = ();
	fn type_info() -> Type {
		Type
	}
}
macro_rules! tt {
	($($n:ident),+) => { impl<$($n: TypeInfo),+> TypeInfo for ($($n,)+) { type Identity = (); fn type_info() -> Type { Type } } };
}
tt!(A);
tt!(A, B);
tt!(A, B, C);
tt!(A, B, C, D);
tt!(A, B, C, D, E);
tt!(A, B, C, D, E, F);
tt!(A, B, C, D, E, F, G);
tt!(A, B, C, D, E, F, G, H);
tt!(A, B, C, D, E, F, G, H, I);
tt!(A, B, C, D, E, F, G, H, I, J);
tt!(A, B, C, D, E, F, G, H, I, J, K);
tt!(A, B, C, D, E, F, G, H, I, J, K, L);

/// Builders used by hand written `TypeInfo` implementations.
pub struct Path;
impl Path {
	pub fn new(_i: &'static str, _m: &'static str) -> Path {
		Path
	}
}
#[derive(Clone, Copy)]
pub struct MetaType;
pub fn meta_type<T: ?Sized>() -> MetaType {
	MetaType
}
pub struct TypeParameter;
impl TypeParameter {
	pub fn new(_n: &'static str, _t: Option<MetaType>) -> Self {
		TypeParameter
	}
}
pub struct TypeBuilder;
impl Type {
	pub fn builder() -> TypeBuilder {
		TypeBuilder
	}
}
impl TypeBuilder {
	pub fn path(self, _p: Path) -> Self {
		self
	}
	pub fn type_params<I>(self, _p: I) -> Self {
		self
	}
	pub fn docs(self, _d: &[&str]) -> Self {
		self
	}
	pub fn composite<F>(self, _f: F) -> Type {
		Type
	}
	pub fn variant<F>(self, _f: F) -> Type {
		Type
	}
}
pub mod build {
	pub struct Fields;
	pub struct FieldsBuilder;
	impl Fields {
		pub fn unit() -> FieldsBuilder {
			FieldsBuilder
		}
		pub fn unnamed() -> FieldsBuilder {
			FieldsBuilder
		}
		pub fn named() -> FieldsBuilder {
			FieldsBuilder
		}
	}
	pub struct FieldBuilder;
	impl FieldBuilder {
		pub fn ty<T: ?Sized>(self) -> Self {
			self
		}
		pub fn compact<T: ?Sized>(self) -> Self {
			self
		}
		pub fn type_name(self, _n: &'static str) -> Self {
			self
		}
		pub fn name(self, _n: &'static str) -> Self {
			self
		}
		pub fn docs(self, _n: &[&str]) -> Self {
			self
		}
	}
	impl FieldsBuilder {
		pub fn field(self, f: impl FnOnce(FieldBuilder) -> FieldBuilder) -> Self {
			let _ = f(FieldBuilder);
			self
		}
	}
	pub struct Variants;
	pub struct VariantBuilder;
	impl Variants {
		pub fn new() -> Self {
			Variants
		}
		pub fn variant(self, _n: &'static str, f: impl FnOnce(VariantBuilder) -> VariantBuilder) -> Self {
			let _ = f(VariantBuilder);
			self
		}
	}
	impl VariantBuilder {
		pub fn index(self, _i: u8) -> Self {
			self
		}
		pub fn fields(self, _f: FieldsBuilder) -> Self {
			self
		}
	}
}
pub mod prelude {
	pub use std::{boxed, collections, format, string, vec};
}
#[macro_export]
macro_rules! type_params_placeholder {
	() => {};
}

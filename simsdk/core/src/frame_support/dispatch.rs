use crate::codec::{self, *};
use crate::macros::{Decode, Encode};
use crate::scale_info::{self, TypeInfo};
pub use crate::frame_support::traits::{Callable, GetCallName, GetCallIndex, GetCallMetadata, UnfilteredDispatchable};
pub use crate::frame_system::RawOrigin;
pub use crate::sp_runtime::traits::Dispatchable;
use crate::sp_runtime::traits::Printable;
pub use crate::sp_runtime::{DispatchError, DispatchErrorWithPostInfo as GenericErr, DispatchResult};
use crate::sp_weights::Weight;
use ::serde::{Deserialize, Serialize};
use std::fmt::Debug;

pub trait Parameter: Codec + EncodeLike + Clone + Eq + Debug + TypeInfo + 'static {}
impl<T: Codec + EncodeLike + Clone + Eq + Debug + TypeInfo + 'static> Parameter for T {}

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize, Default)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize, Default)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl PostDispatchInfo {
	pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight {
		info.weight - self.calc_actual_weight(info)
	}
	pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
		match self.actual_weight {
			Some(w) => w.min(info.weight),
			None => info.weight,
		}
	}
	pub fn pays_fee(&self, info: &DispatchInfo) -> Pays {
		if info.pays_fee == Pays::No || self.pays_fee == Pays::No {
			Pays::No
		} else {
			Pays::Yes
		}
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
		Self { actual_weight, pays_fee }
	}
}
impl From<Pays> for PostDispatchInfo {
	fn from(pays_fee: Pays) -> Self {
		Self { actual_weight: None, pays_fee }
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(actual_weight: Option<Weight>) -> Self {
		Self { actual_weight, pays_fee: Pays::Yes }
	}
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Self { actual_weight: None, pays_fee: Pays::Yes }
	}
}
pub type DispatchErrorWithPostInfo = GenericErr<PostDispatchInfo>;
pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
		GenericErr { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() }
	}
}
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.calc_actual_weight(info)
}
pub fn extract_actual_pays_fee(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Pays {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.pays_fee(info)
}
/// The forms a `#[pallet::weight(..)]` expression can take.
pub trait IntoDispatchInfo {
	fn into_dispatch_info(self) -> DispatchInfo;
}
impl IntoDispatchInfo for Weight {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self, ..Default::default() }
	}
}
impl IntoDispatchInfo for u64 {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() }
	}
}
impl IntoDispatchInfo for i32 {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: Weight::from_parts(self as u64, 0), ..Default::default() }
	}
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, DispatchClass) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { class: self.1, ..self.0.into_dispatch_info() }
	}
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, Pays) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { pays_fee: self.1, ..self.0.into_dispatch_info() }
	}
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, DispatchClass, Pays) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { class: self.1, pays_fee: self.2, ..self.0.into_dispatch_info() }
	}
}
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PerDispatchClass<T> {
	normal: T,
	operational: T,
	mandatory: T,
}
impl<T> PerDispatchClass<T> {
	pub fn new(f: impl Fn(DispatchClass) -> T) -> Self {
		Self { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) }
	}
	pub fn get(&self, c: DispatchClass) -> &T {
		match c {
			DispatchClass::Normal => &self.normal,
			DispatchClass::Operational => &self.operational,
			DispatchClass::Mandatory => &self.mandatory,
		}
	}
	pub fn get_mut(&mut self, c: DispatchClass) -> &mut T {
		match c {
			DispatchClass::Normal => &mut self.normal,
			DispatchClass::Operational => &mut self.operational,
			DispatchClass::Mandatory => &mut self.mandatory,
		}
	}
	pub fn set(&mut self, new: T, c: DispatchClass) {
		*self.get_mut(c) = new
	}
}
pub type CallableCallFor<A, R> = <A as Callable<R>>::RuntimeCall;
pub trait UnusedPrintable: Printable {}

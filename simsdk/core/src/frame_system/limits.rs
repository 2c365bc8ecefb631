use crate::frame_support::dispatch::{DispatchClass, DispatchInfo, PerDispatchClass};
use crate::sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
use crate::sp_runtime::Perbill;
use crate::sp_weights::{constants, Weight};

pub const ALL: [DispatchClass; 3] = [DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory];
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&ALL
	}
	pub fn non_mandatory() -> &'static [DispatchClass] {
		&ALL[..2]
	}
}
pub type ConsumedWeight = PerDispatchClass<Weight>;
impl PerDispatchClass<Weight> {
	pub fn total(&self) -> Weight {
		ALL.iter().fold(Weight::zero(), |a, c| a.saturating_add(*self.get(*c)))
	}
	pub fn accrue(&mut self, w: Weight, c: DispatchClass) {
		self.get_mut(c).saturating_accrue(w)
	}
	pub fn checked_accrue(&mut self, w: Weight, c: DispatchClass) -> Result<(), ()> {
		let r = self.get(c).checked_add(&w).ok_or(())?;
		*self.get_mut(c) = r;
		Ok(())
	}
	pub fn reduce(&mut self, w: Weight, c: DispatchClass) {
		self.get_mut(c).saturating_reduce(w)
	}
	pub fn add(&mut self, w: Weight, c: DispatchClass) {
		self.accrue(w, c)
	}
}
#[derive(Clone, Debug)]
pub struct BlockLength {
	pub max: PerDispatchClass<u32>,
}
impl Default for BlockLength {
	fn default() -> Self {
		Self::max_with_normal_ratio(5 * 1024 * 1024, Perbill::from_percent(75))
	}
}
impl BlockLength {
	pub fn max(m: u32) -> Self {
		Self { max: PerDispatchClass::new(|_| m) }
	}
	pub fn max_with_normal_ratio(m: u32, normal: Perbill) -> Self {
		Self { max: PerDispatchClass::new(|c| if c == DispatchClass::Normal { normal * m } else { m }) }
	}
}
#[derive(Clone, Debug, PartialEq)]
pub struct WeightsPerClass {
	pub base_extrinsic: Weight,
	pub max_extrinsic: Option<Weight>,
	pub max_total: Option<Weight>,
	pub reserved: Option<Weight>,
}
#[derive(Clone, Debug)]
pub struct BlockWeights {
	pub base_block: Weight,
	pub max_block: Weight,
	pub per_class: PerDispatchClass<WeightsPerClass>,
}
impl Default for BlockWeights {
	fn default() -> Self {
		Self::with_sensible_defaults(Weight::from_parts(constants::WEIGHT_REF_TIME_PER_SECOND, u64::MAX), Perbill::from_percent(75))
	}
}
impl BlockWeights {
	pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
		self.per_class.get(c)
	}
	pub fn simple_max(block: Weight) -> Self {
		Self::builder()
			.base_block(Weight::zero())
			.for_class(DispatchClass::all(), |w| w.base_extrinsic = Weight::zero())
			.for_class(DispatchClass::non_mandatory(), |w| w.max_total = block.into())
			.build_or_panic()
	}
	pub fn with_sensible_defaults(expected: Weight, ratio: Perbill) -> Self {
		let normal = ratio * expected;
		Self::builder()
			.for_class(DispatchClass::Normal, |w| w.max_total = normal.into())
			.for_class(DispatchClass::Operational, |w| {
				w.max_total = expected.into();
				w.reserved = (expected - normal).into();
			})
			.avg_block_initialization(Perbill::from_percent(10))
			.build_or_panic()
	}
	pub fn builder() -> BlockWeightsBuilder {
		use crate::sp_core::Get;
		BlockWeightsBuilder {
			weights: BlockWeights {
				base_block: constants::BlockExecutionWeight::get(),
				max_block: Weight::zero(),
				per_class: PerDispatchClass::new(|c| WeightsPerClass {
					base_extrinsic: constants::ExtrinsicBaseWeight::get(),
					max_extrinsic: None,
					max_total: if c == DispatchClass::Mandatory { None } else { Some(Weight::zero()) },
					reserved: if c == DispatchClass::Mandatory { None } else { Some(Weight::zero()) },
				}),
			},
			init_cost: None,
		}
	}
}
pub struct BlockWeightsBuilder {
	weights: BlockWeights,
	init_cost: Option<Perbill>,
}
pub trait OneOrMany {
	fn list(self) -> Vec<DispatchClass>;
}
impl OneOrMany for DispatchClass {
	fn list(self) -> Vec<DispatchClass> {
		vec![self]
	}
}
impl<'a> OneOrMany for &'a [DispatchClass] {
	fn list(self) -> Vec<DispatchClass> {
		self.to_vec()
	}
}
impl BlockWeightsBuilder {
	pub fn base_block(mut self, w: Weight) -> Self {
		self.weights.base_block = w;
		self
	}
	pub fn avg_block_initialization(mut self, p: Perbill) -> Self {
		self.init_cost = Some(p);
		self
	}
	pub fn for_class(mut self, c: impl OneOrMany, f: impl Fn(&mut WeightsPerClass)) -> Self {
		for c in c.list() {
			f(self.weights.per_class.get_mut(c))
		}
		self
	}
	pub fn build(mut self) -> Result<BlockWeights, ()> {
		let w = &mut self.weights;
		for c in ALL {
			let m = match w.per_class.get(c).max_total {
				Some(m) => m,
				None => continue,
			};
			w.max_block = m.max(w.max_block);
		}
		if let Some(r) = self.init_cost.map(|p| p * w.max_block) {
			for c in ALL {
				let pc = w.per_class.get_mut(c);
				if pc.max_extrinsic.is_none() && self.init_cost.is_some() {
					pc.max_extrinsic = pc.max_total.map(|x| x.saturating_sub(r)).map(|x| x.saturating_sub(pc.base_extrinsic));
				}
			}
		}
		Ok(self.weights)
	}
	pub fn build_or_panic(self) -> BlockWeights {
		self.build().expect("weights")
	}
}
pub fn calculate_consumed_weight(max: &BlockWeights, mut all: ConsumedWeight, info: &DispatchInfo) -> Result<ConsumedWeight, TransactionValidityError> {
	let w = info.weight.saturating_add(max.get(info.class).base_extrinsic);
	let limit = max.get(info.class);
	if limit.max_total.is_none() {
		all.accrue(w, info.class)
	} else {
		all.checked_accrue(w, info.class).map_err(|_| InvalidTransaction::ExhaustsResources)?
	}
	let per_class = *all.get(info.class);
	match limit.max_total {
		Some(m) if per_class.any_gt(m) => return Err(InvalidTransaction::ExhaustsResources.into()),
		_ => {},
	}
	if all.total().any_gt(max.max_block) {
		match limit.reserved {
			Some(r) if per_class.any_gt(r) => return Err(InvalidTransaction::ExhaustsResources.into()),
			_ => {},
		}
	}
	Ok(all)
}

//! `frame_executive`: block execution in the order of the real executive.
use crate::codec::{Codec, Decode, Encode};
use crate::frame_support::dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo};
use crate::frame_support::traits::*;
use crate::frame_system::{self, pallet_prelude::*};
use crate::sp_runtime::generic::{self, CheckedExtrinsic};
use crate::sp_runtime::traits::{self, Block as BlockT, Checkable, Dispatchable, Header as HeaderT, One, SignedExtension, ValidateUnsigned, Zero};
use crate::sp_runtime::transaction_validity::*;
use crate::sp_runtime::{ApplyExtrinsicResult, DispatchError};
use crate::sp_weights::Weight;
use std::marker::PhantomData;

/// What the executive needs from a checked extrinsic.
pub trait CheckedXt {
	type Call;
	fn do_validate<U: ValidateUnsigned<Call = Self::Call>>(&self, s: TransactionSource, len: usize) -> TransactionValidity;
	fn do_apply<U: ValidateUnsigned<Call = Self::Call>>(self, info: &DispatchInfo, len: usize) -> crate::sp_runtime::ApplyExtrinsicResultWithInfo<PostDispatchInfo>;
	fn info(&self) -> DispatchInfo;
}
impl<A, Call, Extra> CheckedXt for CheckedExtrinsic<A, Call, Extra>
where
	A: Clone,
	Extra: SignedExtension<AccountId = A, Call = Call>,
	Call: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo> + GetDispatchInfo,
	Call::RuntimeOrigin: From<Option<A>>,
{
	type Call = Call;
	fn do_validate<U: ValidateUnsigned<Call = Call>>(&self, s: TransactionSource, len: usize) -> TransactionValidity {
		let i = self.function.get_dispatch_info();
		self.validate::<U>(s, &i, len)
	}
	fn do_apply<U: ValidateUnsigned<Call = Call>>(self, info: &DispatchInfo, len: usize) -> crate::sp_runtime::ApplyExtrinsicResultWithInfo<PostDispatchInfo> {
		self.apply::<U>(info, len)
	}
	fn info(&self) -> DispatchInfo {
		self.function.get_dispatch_info()
	}
}

pub struct Executive<System, Block, Context, UnsignedValidator, AllPalletsWithSystem, OnRuntimeUpgrade = ()>(
	PhantomData<(System, Block, Context, UnsignedValidator, AllPalletsWithSystem, OnRuntimeUpgrade)>,
);
impl<System, Block, Context, U, All, Upgrade> Executive<System, Block, Context, U, All, Upgrade>
where
	System: frame_system::Config<Block = Block>,
	Block: BlockT<Hash = System::Hash>,
	Block::Extrinsic: Checkable<Context> + Codec,
	Context: Default,
	<Block::Extrinsic as Checkable<Context>>::Checked: CheckedXt<Call = <U as ValidateUnsigned>::Call>,
	U: ValidateUnsigned,
	All: OnInitialize<BlockNumberFor<System>>
		+ OnFinalize<BlockNumberFor<System>>
		+ OnIdle<BlockNumberFor<System>>
		+ OnRuntimeUpgradeT
		+ OffchainWorker<BlockNumberFor<System>>,
	Upgrade: OnRuntimeUpgradeT,
{
	pub fn execute_on_runtime_upgrade() -> Weight {
		Upgrade::on_runtime_upgrade().saturating_add(All::on_runtime_upgrade())
	}
	fn runtime_upgraded() -> bool {
		let cur = <System::Version as Get<crate::sp_version::RuntimeVersion>>::get();
		let last = frame_system::LastRuntimeUpgrade::<System>::get();
		if last.map(|v| v < cur.spec_version).unwrap_or(true) {
			frame_system::LastRuntimeUpgrade::<System>::put(cur.spec_version);
			true
		} else {
			false
		}
	}
	pub fn initialize_block(header: &HeaderFor<System>) {
		let mut weight = Weight::zero();
		if Self::runtime_upgraded() {
			weight = weight.saturating_add(Self::execute_on_runtime_upgrade());
		}
		frame_system::Pallet::<System>::reset_events();
		frame_system::Pallet::<System>::initialize(header.number(), header.parent_hash(), header.digest());
		weight = weight.saturating_add(All::on_initialize(*header.number()));
		weight = weight.saturating_add(System::BlockWeights::get().base_block);
		frame_system::Pallet::<System>::register_extra_weight_unchecked(weight, crate::frame_support::dispatch::DispatchClass::Mandatory);
		frame_system::Pallet::<System>::note_finished_initialize();
	}
	pub fn apply_extrinsic(uxt: Block::Extrinsic) -> ApplyExtrinsicResult {
		let encoded = uxt.encode();
		let len = encoded.len();
		let xt = uxt.check(&Context::default())?;
		frame_system::Pallet::<System>::note_extrinsic(encoded);
		let info = xt.info();
		let r = xt.do_apply::<U>(&info, len)?;
		if r.is_err() && info.class == crate::frame_support::dispatch::DispatchClass::Mandatory {
			return Err(InvalidTransaction::BadMandatory.into())
		}
		frame_system::Pallet::<System>::note_applied_extrinsic(&r, info);
		Ok(r.map(|_| ()).map_err(|e| e.error))
	}
	pub fn finalize_block() -> HeaderFor<System> {
		frame_system::Pallet::<System>::note_finished_extrinsics();
		let n = frame_system::Pallet::<System>::block_number();
		Self::idle_and_finalize_hook(n);
		frame_system::Pallet::<System>::finalize()
	}
	fn idle_and_finalize_hook(n: BlockNumberFor<System>) {
		let w = frame_system::Pallet::<System>::block_weight();
		let max = System::BlockWeights::get().max_block;
		let remaining = max.saturating_sub(w.total());
		if remaining.all_gt(Weight::zero()) {
			let used = All::on_idle(n, remaining);
			frame_system::Pallet::<System>::register_extra_weight_unchecked(used, crate::frame_support::dispatch::DispatchClass::Mandatory);
		}
		All::on_finalize(n);
	}
	/// Import of a block made by somebody else.
	pub fn execute_block(block: Block) {
		let (header, xts) = block.deconstruct();
		Self::initialize_block(&header);
		for x in xts {
			if let Err(e) = Self::apply_extrinsic(x) {
				panic!("invalid extrinsic in block: {:?}", e)
			}
		}
		let built = Self::finalize_block();
		assert!(built.extrinsics_root() == header.extrinsics_root(), "Transaction trie root must be valid.");
		assert!(built.state_root() == header.state_root(), "Storage root must match that calculated.");
	}
	pub fn validate_transaction(source: TransactionSource, uxt: Block::Extrinsic, block_hash: Block::Hash) -> TransactionValidity {
		let n = frame_system::Pallet::<System>::block_number() + One::one();
		frame_system::Pallet::<System>::initialize(&n, &block_hash, &Default::default());
		let len = uxt.encode().len();
		let xt = uxt.check(&Context::default())?;
		if xt.info().class == crate::frame_support::dispatch::DispatchClass::Mandatory {
			return Err(InvalidTransaction::MandatoryValidation.into())
		}
		xt.do_validate::<U>(source, len)
	}
	pub fn offchain_worker(header: &HeaderFor<System>) {
		frame_system::Pallet::<System>::initialize(header.number(), header.parent_hash(), header.digest());
		frame_system::BlockHash::<System>::insert(*header.number(), header.hash());
		All::offchain_worker(*header.number())
	}
}
use crate::frame_support::traits::OnRuntimeUpgrade as OnRuntimeUpgradeT;

//! The pallets of the runtime by which public matters are decided or done together: treasury, scheduler, democracy,
//! preimage, collator selection and multisig, in what the runtime's configuration decides about them (who may do what).
//!
//! Not here: deposits and bonds, payouts, the voting of referenda (their periods are days) and the collators' own calls.
macro_rules! prelude {
	() => {
		use crate::codec::{self, *};
		use crate::frame_support::dispatch::*;
		use crate::frame_support::pallet_prelude::*;
		use crate::frame_support::traits::*;
		use crate::frame_support::{self};
		use crate::frame_system::{self, pallet_prelude::*};
		use crate::scale_info::{self, TypeInfo};
		use crate::sp_runtime::traits::{Dispatchable, Hash};
		use crate::sp_runtime::DispatchError;
		pub use pallet::*;
		use std::marker::PhantomData;
	};
}
macro_rules! weights {
	($($wf:ident ( $($a:ident),* )),* $(,)?) => {
		pub mod office_weights {
			pub trait WeightInfo { $( fn $wf($($a: u32),*) -> crate::sp_weights::Weight; )* }
		}
		pub use office_weights::WeightInfo;
	};
}

pub mod treasury {
	prelude!();
	weights![
		spend_local(), propose_spend(), reject_proposal(), approve_proposal(p), remove_approval(), on_initialize_proposals(p), spend(), payout(),
		check_status(), void_spend()
	];
	#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo)]
	pub struct Proposal<AccountId> {
		pub proposer: AccountId,
		pub value: u128,
		pub beneficiary: AccountId,
	}
	#[crate::macros::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type PalletId;
			type Currency;
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type WeightInfo: WeightInfo;
			type ApproveOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
			type RejectOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
			type SpendOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin, Success = u128>;
			type OnSlash;
			type ProposalBond;
			type ProposalBondMinimum;
			type ProposalBondMaximum;
			type SpendPeriod;
			type Burn;
			type BurnDestination;
			type SpendFunds;
			type MaxApprovals: Get<u32>;
			type AssetKind;
			type Beneficiary;
			type BeneficiaryLookup;
			type Paymaster;
			type BalanceConverter;
			type PayoutPeriod;
		}
		#[pallet::genesis_config]
		#[derive(crate::macros::DefaultNoBound)]
		pub struct GenesisConfig<T: Config> {
			pub _config: PhantomData<T>,
		}
		#[pallet::genesis_build]
		impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
			fn build(&self) {}
		}
		#[pallet::storage]
		pub type Proposals<T: Config> = StorageMap<_, Twox64Concat, u32, Proposal<T::AccountId>, OptionQuery>;
		#[pallet::storage]
		pub type ProposalCount<T: Config> = StorageValue<_, u32, ValueQuery>;
		#[pallet::storage]
		pub type Approvals<T: Config> = StorageValue<_, Vec<u32>, ValueQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			Proposed { proposal_index: u32 },
			Rejected { proposal_index: u32 },
			SpendApproved { proposal_index: u32, amount: u128, beneficiary: T::AccountId },
		}
		#[pallet::error]
		pub enum Error<T> {
			InvalidIndex,
			TooManyApprovals,
			InsufficientPermission,
			ProposalNotApproved,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(T::WeightInfo::propose_spend())]
			pub fn propose_spend(origin: OriginFor<T>, #[pallet::compact] value: u128, beneficiary: T::AccountId) -> DispatchResult {
				let proposer = ensure_signed(origin)?;
				Self::add(Proposal { proposer, value, beneficiary });
				Ok(())
			}
			#[pallet::call_index(1)]
			#[pallet::weight((T::WeightInfo::reject_proposal(), DispatchClass::Operational))]
			pub fn reject_proposal(origin: OriginFor<T>, #[pallet::compact] proposal_id: u32) -> DispatchResult {
				T::RejectOrigin::ensure_origin(origin)?;
				ensure!(Proposals::<T>::take(proposal_id).is_some(), Error::<T>::InvalidIndex);
				Self::deposit_event(Event::Rejected { proposal_index: proposal_id });
				Ok(())
			}
			#[pallet::call_index(2)]
			#[pallet::weight((T::WeightInfo::approve_proposal(T::MaxApprovals::get()), DispatchClass::Operational))]
			pub fn approve_proposal(origin: OriginFor<T>, #[pallet::compact] proposal_id: u32) -> DispatchResult {
				T::ApproveOrigin::ensure_origin(origin)?;
				ensure!(Proposals::<T>::contains_key(proposal_id), Error::<T>::InvalidIndex);
				Self::approve(proposal_id)
			}
			#[pallet::call_index(3)]
			#[pallet::weight(T::WeightInfo::spend_local())]
			pub fn spend_local(origin: OriginFor<T>, #[pallet::compact] amount: u128, beneficiary: T::AccountId) -> DispatchResult {
				let most = T::SpendOrigin::ensure_origin(origin)?;
				ensure!(amount <= most, Error::<T>::InsufficientPermission);
				let id = Self::add(Proposal { proposer: beneficiary.clone(), value: amount, beneficiary: beneficiary.clone() });
				Self::approve(id)?;
				Self::deposit_event(Event::SpendApproved { proposal_index: id, amount, beneficiary });
				Ok(())
			}
			#[pallet::call_index(4)]
			#[pallet::weight((T::WeightInfo::remove_approval(), DispatchClass::Operational))]
			pub fn remove_approval(origin: OriginFor<T>, #[pallet::compact] proposal_id: u32) -> DispatchResult {
				T::RejectOrigin::ensure_origin(origin)?;
				Approvals::<T>::try_mutate(|v| -> DispatchResult {
					let i = v.iter().position(|x| *x == proposal_id).ok_or(Error::<T>::ProposalNotApproved)?;
					v.remove(i);
					Ok(())
				})
			}
		}
		impl<T: Config> Pallet<T> {
			fn add(p: Proposal<T::AccountId>) -> u32 {
				let c = ProposalCount::<T>::get();
				ProposalCount::<T>::put(c + 1);
				Proposals::<T>::insert(c, p);
				Self::deposit_event(Event::Proposed { proposal_index: c });
				c
			}
			fn approve(id: u32) -> DispatchResult {
				let mut v = Approvals::<T>::get();
				ensure!(v.len() < T::MaxApprovals::get() as usize, Error::<T>::TooManyApprovals);
				v.push(id);
				Approvals::<T>::put(v);
				Ok(())
			}
		}
		#[pallet::hooks]
		impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	}
}

pub mod scheduler {
	prelude!();
	weights![
		service_agendas_base(), service_agenda_base(s), service_task_base(), service_task_fetched(s), service_task_named(), service_task_periodic(),
		execute_dispatch_signed(), execute_dispatch_unsigned(), schedule(s), cancel(s), schedule_named(s), cancel_named(s)
	];
	#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo)]
	pub struct Scheduled<Call, Origin> {
		pub maybe_id: Option<[u8; 32]>,
		pub priority: u8,
		pub call: Call,
		pub maybe_periodic: Option<(u32, u32)>,
		pub origin: Origin,
	}
	#[crate::macros::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type RuntimeOrigin: OriginTrait<PalletsOrigin = Self::PalletsOrigin> + IsType<<Self as frame_system::Config>::RuntimeOrigin>;
			type PalletsOrigin: Parameter + Into<<Self as frame_system::Config>::RuntimeOrigin>;
			type RuntimeCall: Parameter
				+ Dispatchable<RuntimeOrigin = <Self as frame_system::Config>::RuntimeOrigin, PostInfo = PostDispatchInfo>
				+ GetDispatchInfo;
			type MaximumWeight;
			type ScheduleOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
			type MaxScheduledPerBlock: Get<u32>;
			type WeightInfo: WeightInfo;
			type OriginPrivilegeCmp: PrivilegeCmp<Self::PalletsOrigin>;
			type Preimages;
		}
		#[pallet::storage]
		pub type Agenda<T: Config> = StorageMap<_, Twox64Concat, u32, Vec<Option<Scheduled<<T as Config>::RuntimeCall, T::PalletsOrigin>>>, ValueQuery>;
		#[pallet::storage]
		pub type Lookup<T: Config> = StorageMap<_, Twox64Concat, [u8; 32], (u32, u32), OptionQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			Scheduled { when: u32, index: u32 },
			Canceled { when: u32, index: u32 },
			Dispatched { task: (u32, u32), id: Option<[u8; 32]>, result: DispatchResult },
			#[allow(missing_docs)]
			_None { account: T::AccountId },
		}
		#[pallet::error]
		pub enum Error<T> {
			FailedToSchedule,
			NotFound,
			TargetBlockNumberInPast,
			AgendaIsExhausted,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(T::WeightInfo::schedule(T::MaxScheduledPerBlock::get()))]
			pub fn schedule(origin: OriginFor<T>, when: u32, maybe_periodic: Option<(u32, u32)>, priority: u8, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
				T::ScheduleOrigin::ensure_origin(origin.clone())?;
				Self::place(None, when, maybe_periodic, priority, origin, *call)
			}
			#[pallet::call_index(1)]
			#[pallet::weight(T::WeightInfo::cancel(T::MaxScheduledPerBlock::get()))]
			pub fn cancel(origin: OriginFor<T>, when: u32, index: u32) -> DispatchResult {
				T::ScheduleOrigin::ensure_origin(origin.clone())?;
				Self::drop_task(origin, when, index)
			}
			#[pallet::call_index(2)]
			#[pallet::weight(T::WeightInfo::schedule_named(T::MaxScheduledPerBlock::get()))]
			pub fn schedule_named(
				origin: OriginFor<T>,
				id: [u8; 32],
				when: u32,
				maybe_periodic: Option<(u32, u32)>,
				priority: u8,
				call: Box<<T as Config>::RuntimeCall>,
			) -> DispatchResult {
				T::ScheduleOrigin::ensure_origin(origin.clone())?;
				ensure!(Lookup::<T>::get(id).is_none(), Error::<T>::FailedToSchedule);
				Self::place(Some(id), when, maybe_periodic, priority, origin, *call)
			}
			#[pallet::call_index(3)]
			#[pallet::weight(T::WeightInfo::cancel_named(T::MaxScheduledPerBlock::get()))]
			pub fn cancel_named(origin: OriginFor<T>, id: [u8; 32]) -> DispatchResult {
				T::ScheduleOrigin::ensure_origin(origin.clone())?;
				let (when, index) = Lookup::<T>::get(id).ok_or(Error::<T>::NotFound)?;
				Self::drop_task(origin, when, index)
			}
			#[pallet::call_index(4)]
			#[pallet::weight(T::WeightInfo::schedule(T::MaxScheduledPerBlock::get()))]
			pub fn schedule_after(origin: OriginFor<T>, after: u32, maybe_periodic: Option<(u32, u32)>, priority: u8, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
				T::ScheduleOrigin::ensure_origin(origin.clone())?;
				let when = Self::now().saturating_add(after).saturating_add(1);
				Self::place(None, when, maybe_periodic, priority, origin, *call)
			}
		}
		impl<T: Config> Pallet<T> {
			fn now() -> u32 {
				let mut n = frame_system::Pallet::<T>::block_number().encode();
				n.resize(4, 0);
				u32::from_le_bytes([n[0], n[1], n[2], n[3]])
			}
			fn caller(o: OriginFor<T>) -> T::PalletsOrigin {
				<T as Config>::RuntimeOrigin::from(o).caller().clone()
			}
			fn place(
				maybe_id: Option<[u8; 32]>,
				when: u32,
				maybe_periodic: Option<(u32, u32)>,
				priority: u8,
				origin: OriginFor<T>,
				call: <T as Config>::RuntimeCall,
			) -> DispatchResult {
				ensure!(when > Self::now(), Error::<T>::TargetBlockNumberInPast);
				let maybe_periodic = maybe_periodic.filter(|p| p.1 > 1 && p.0 > 0).map(|(p, c)| (p, c - 1));
				Self::push(when, Scheduled { maybe_id, priority, call, maybe_periodic, origin: Self::caller(origin) })
			}
			fn push(when: u32, t: Scheduled<<T as Config>::RuntimeCall, T::PalletsOrigin>) -> DispatchResult {
				let mut a = Agenda::<T>::get(when);
				let id = t.maybe_id;
				let index = if a.len() < T::MaxScheduledPerBlock::get() as usize {
					a.push(Some(t));
					a.len() - 1
				} else if let Some(i) = a.iter().position(|x| x.is_none()) {
					a[i] = Some(t);
					i
				} else {
					return Err(Error::<T>::AgendaIsExhausted.into())
				} as u32;
				Agenda::<T>::insert(when, a);
				if let Some(id) = id {
					Lookup::<T>::insert(id, (when, index));
				}
				Self::deposit_event(Event::Scheduled { when, index });
				Ok(())
			}
			fn drop_task(origin: OriginFor<T>, when: u32, index: u32) -> DispatchResult {
				let who = Self::caller(origin);
				let mut a = Agenda::<T>::get(when);
				let Some(Some(t)) = a.get(index as usize) else { return Err(Error::<T>::NotFound.into()) };
				ensure!(matches!(T::OriginPrivilegeCmp::cmp_privilege(&who, &t.origin), Some(std::cmp::Ordering::Equal | std::cmp::Ordering::Greater)), DispatchError::BadOrigin);
				if let Some(id) = t.maybe_id {
					Lookup::<T>::remove(id);
				}
				a[index as usize] = None;
				Self::store(when, a);
				Self::deposit_event(Event::Canceled { when, index });
				Ok(())
			}
			fn store(when: u32, mut a: Vec<Option<Scheduled<<T as Config>::RuntimeCall, T::PalletsOrigin>>>) {
				while matches!(a.last(), Some(None)) {
					a.pop();
				}
				if a.is_empty() {
					Agenda::<T>::remove(when);
				} else {
					Agenda::<T>::insert(when, a);
				}
			}
		}
		#[pallet::hooks]
		impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
			fn on_initialize(_: BlockNumberFor<T>) -> Weight {
				let now = Self::now();
				let a = Agenda::<T>::get(now);
				if a.is_empty() {
					return Weight::zero()
				}
				let mut order: Vec<usize> = (0..a.len()).filter(|i| a[*i].is_some()).collect();
				order.sort_by_key(|i| a[*i].as_ref().map(|t| t.priority));
				for i in order {
					// it may have been cancelled by one before it
					let mut a = Agenda::<T>::get(now);
					let Some(mut t) = a.get_mut(i).and_then(|t| t.take()) else { continue };
					if let Some(id) = t.maybe_id {
						Lookup::<T>::remove(id);
					}
					Self::store(now, a);
					let result = frame_support::storage::with_storage_layer(|| t.call.clone().dispatch(t.origin.clone().into()).map(|_| ()).map_err(|e| e.error));
					Self::deposit_event(Event::Dispatched { task: (now, i as u32), id: t.maybe_id, result });
					if let Some((period, count)) = t.maybe_periodic {
						t.maybe_periodic = if count > 1 { Some((period, count - 1)) } else { None };
						let _ = Self::push(now.saturating_add(period), t);
					}
				}
				Weight::zero()
			}
		}
	}
}

pub mod democracy {
	prelude!();
	weights![
		propose(), second(), vote_new(), vote_existing(), emergency_cancel(), blacklist(), external_propose(), external_propose_majority(),
		external_propose_default(), fast_track(), veto_external(), cancel_proposal(), cancel_referendum(), on_initialize_base(r),
		on_initialize_base_with_launch_period(r), delegate(r), undelegate(r), clear_public_proposals(), unlock_remove(r), unlock_set(r),
		remove_vote(r), remove_other_vote(r), set_external_metadata(), clear_external_metadata(), set_proposal_metadata(),
		clear_proposal_metadata(), set_referendum_metadata(), clear_referendum_metadata()
	];
	#[derive(Encode, Decode, Clone, Copy, Eq, PartialEq, Debug, TypeInfo, MaxEncodedLen)]
	pub enum VoteThreshold {
		SuperMajorityApprove,
		SuperMajorityAgainst,
		SimpleMajority,
	}
	#[crate::macros::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		type O<T> = <T as frame_system::Config>::RuntimeOrigin;
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type CooloffPeriod: Get<u32>;
			type Currency;
			type EnactmentPeriod;
			type FastTrackVotingPeriod: Get<u32>;
			type InstantAllowed: Get<bool>;
			type LaunchPeriod;
			type MaxProposals: Get<u32>;
			type MaxVotes;
			type MinimumDeposit;
			type Scheduler;
			type Slash;
			type WeightInfo: WeightInfo;
			type VoteLockingPeriod;
			type VotingPeriod;
			type Preimages;
			type MaxDeposits;
			type MaxBlacklisted;
			type ExternalDefaultOrigin: EnsureOrigin<O<Self>>;
			type ExternalMajorityOrigin: EnsureOrigin<O<Self>>;
			type ExternalOrigin: EnsureOrigin<O<Self>>;
			type SubmitOrigin: EnsureOrigin<O<Self>, Success = Self::AccountId>;
			type FastTrackOrigin: EnsureOrigin<O<Self>>;
			type InstantOrigin: EnsureOrigin<O<Self>>;
			type PalletsOrigin;
			type CancellationOrigin: EnsureOrigin<O<Self>>;
			type CancelProposalOrigin: EnsureOrigin<O<Self>>;
			type BlacklistOrigin: EnsureOrigin<O<Self>>;
			type VetoOrigin: EnsureOrigin<O<Self>, Success = Self::AccountId>;
		}
		#[pallet::genesis_config]
		#[derive(crate::macros::DefaultNoBound)]
		pub struct GenesisConfig<T: Config> {
			pub _config: PhantomData<T>,
		}
		#[pallet::genesis_build]
		impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
			fn build(&self) {}
		}
		#[pallet::storage]
		pub type PublicProps<T: Config> = StorageValue<_, Vec<(u32, T::Hash, T::AccountId)>, ValueQuery>;
		#[pallet::storage]
		pub type PublicPropCount<T: Config> = StorageValue<_, u32, ValueQuery>;
		/// (end, proposal, threshold, delay)
		#[pallet::storage]
		pub type ReferendumInfoOf<T: Config> = StorageMap<_, Twox64Concat, u32, (u32, T::Hash, VoteThreshold, u32), OptionQuery>;
		#[pallet::storage]
		pub type ReferendumCount<T: Config> = StorageValue<_, u32, ValueQuery>;
		#[pallet::storage]
		pub type NextExternal<T: Config> = StorageValue<_, (T::Hash, VoteThreshold), OptionQuery>;
		#[pallet::storage]
		pub type Blacklist<T: Config> = StorageMap<_, Identity, T::Hash, (u32, Vec<T::AccountId>), OptionQuery>;
		#[pallet::storage]
		pub type Cancellations<T: Config> = StorageMap<_, Identity, T::Hash, bool, ValueQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			Proposed { proposal_index: u32 },
			ExternalTabled,
			Started { ref_index: u32, threshold: VoteThreshold },
			Cancelled { ref_index: u32 },
			Vetoed { who: T::AccountId, proposal_hash: T::Hash, until: u32 },
			Blacklisted { proposal_hash: T::Hash },
			ProposalCanceled { prop_index: u32 },
		}
		#[pallet::error]
		pub enum Error<T> {
			ProposalMissing,
			AlreadyCanceled,
			DuplicateProposal,
			ProposalBlacklisted,
			NotSimpleMajority,
			InvalidHash,
			NoProposal,
			AlreadyVetoed,
			ReferendumInvalid,
			VotingPeriodLow,
			InstantNotAllowed,
			TooMany,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(T::WeightInfo::propose())]
			pub fn propose(origin: OriginFor<T>, proposal: T::Hash) -> DispatchResult {
				let who = T::SubmitOrigin::ensure_origin(origin)?;
				let mut l = PublicProps::<T>::get();
				ensure!(l.len() < T::MaxProposals::get() as usize, Error::<T>::TooMany);
				Self::not_black(&proposal)?;
				let i = PublicPropCount::<T>::get();
				PublicPropCount::<T>::put(i + 1);
				l.push((i, proposal, who));
				PublicProps::<T>::put(l);
				Self::deposit_event(Event::Proposed { proposal_index: i });
				Ok(())
			}
			#[pallet::call_index(3)]
			#[pallet::weight((T::WeightInfo::emergency_cancel(), DispatchClass::Operational))]
			pub fn emergency_cancel(origin: OriginFor<T>, ref_index: u32) -> DispatchResult {
				T::CancellationOrigin::ensure_origin(origin)?;
				let r = ReferendumInfoOf::<T>::get(ref_index).ok_or(Error::<T>::ReferendumInvalid)?;
				ensure!(!Cancellations::<T>::get(r.1), Error::<T>::AlreadyCanceled);
				Cancellations::<T>::insert(r.1, true);
				Self::drop_ref(ref_index);
				Ok(())
			}
			#[pallet::call_index(4)]
			#[pallet::weight(T::WeightInfo::external_propose())]
			pub fn external_propose(origin: OriginFor<T>, proposal: T::Hash) -> DispatchResult {
				T::ExternalOrigin::ensure_origin(origin)?;
				ensure!(NextExternal::<T>::get().is_none(), Error::<T>::DuplicateProposal);
				Self::not_black(&proposal)?;
				NextExternal::<T>::put((proposal, VoteThreshold::SuperMajorityApprove));
				Ok(())
			}
			#[pallet::call_index(5)]
			#[pallet::weight(T::WeightInfo::external_propose_majority())]
			pub fn external_propose_majority(origin: OriginFor<T>, proposal: T::Hash) -> DispatchResult {
				T::ExternalMajorityOrigin::ensure_origin(origin)?;
				NextExternal::<T>::put((proposal, VoteThreshold::SimpleMajority));
				Ok(())
			}
			#[pallet::call_index(6)]
			#[pallet::weight(T::WeightInfo::external_propose_default())]
			pub fn external_propose_default(origin: OriginFor<T>, proposal: T::Hash) -> DispatchResult {
				T::ExternalDefaultOrigin::ensure_origin(origin)?;
				NextExternal::<T>::put((proposal, VoteThreshold::SuperMajorityAgainst));
				Ok(())
			}
			#[pallet::call_index(7)]
			#[pallet::weight(T::WeightInfo::fast_track())]
			pub fn fast_track(origin: OriginFor<T>, proposal_hash: T::Hash, voting_period: u32, delay: u32) -> DispatchResult {
				let instant = if voting_period < T::FastTrackVotingPeriod::get() { Some(origin) } else { T::FastTrackOrigin::try_origin(origin).err() };
				if let Some(o) = instant {
					T::InstantOrigin::ensure_origin(o)?;
					ensure!(T::InstantAllowed::get(), Error::<T>::InstantNotAllowed);
				}
				ensure!(voting_period > 0, Error::<T>::VotingPeriodLow);
				let (p, threshold) = NextExternal::<T>::get().ok_or(Error::<T>::ProposalMissing)?;
				ensure!(threshold != VoteThreshold::SuperMajorityApprove, Error::<T>::NotSimpleMajority);
				ensure!(p == proposal_hash, Error::<T>::InvalidHash);
				NextExternal::<T>::kill();
				let i = ReferendumCount::<T>::get();
				ReferendumCount::<T>::put(i + 1);
				ReferendumInfoOf::<T>::insert(i, (Self::now().saturating_add(voting_period), p, threshold, delay));
				Self::deposit_event(Event::Started { ref_index: i, threshold });
				Ok(())
			}
			#[pallet::call_index(8)]
			#[pallet::weight(T::WeightInfo::veto_external())]
			pub fn veto_external(origin: OriginFor<T>, proposal_hash: T::Hash) -> DispatchResult {
				let who = T::VetoOrigin::ensure_origin(origin)?;
				let (p, _) = NextExternal::<T>::get().ok_or(Error::<T>::ProposalMissing)?;
				ensure!(p == proposal_hash, Error::<T>::ProposalMissing);
				let mut vetoers = Blacklist::<T>::get(p).map(|x| x.1).unwrap_or_default();
				let at = vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
				vetoers.insert(at, who.clone());
				let until = Self::now().saturating_add(T::CooloffPeriod::get());
				Blacklist::<T>::insert(p, (until, vetoers));
				NextExternal::<T>::kill();
				Self::deposit_event(Event::Vetoed { who, proposal_hash, until });
				Ok(())
			}
			#[pallet::call_index(9)]
			#[pallet::weight(T::WeightInfo::cancel_referendum())]
			pub fn cancel_referendum(origin: OriginFor<T>, #[pallet::compact] ref_index: u32) -> DispatchResult {
				ensure_root(origin)?;
				Self::drop_ref(ref_index);
				Ok(())
			}
			#[pallet::call_index(12)]
			#[pallet::weight(T::WeightInfo::clear_public_proposals())]
			pub fn clear_public_proposals(origin: OriginFor<T>) -> DispatchResult {
				ensure_root(origin)?;
				PublicProps::<T>::kill();
				Ok(())
			}
			#[pallet::call_index(16)]
			#[pallet::weight((T::WeightInfo::blacklist(), DispatchClass::Operational))]
			pub fn blacklist(origin: OriginFor<T>, proposal_hash: T::Hash, maybe_ref_index: Option<u32>) -> DispatchResult {
				T::BlacklistOrigin::ensure_origin(origin)?;
				Blacklist::<T>::insert(proposal_hash, (u32::MAX, Vec::<T::AccountId>::new()));
				PublicProps::<T>::mutate(|l| l.retain(|p| p.1 != proposal_hash));
				if NextExternal::<T>::get().map_or(false, |x| x.0 == proposal_hash) {
					NextExternal::<T>::kill();
				}
				if let Some(i) = maybe_ref_index {
					if ReferendumInfoOf::<T>::get(i).map_or(false, |r| r.1 == proposal_hash) {
						Self::drop_ref(i);
					}
				}
				Self::deposit_event(Event::Blacklisted { proposal_hash });
				Ok(())
			}
			#[pallet::call_index(17)]
			#[pallet::weight(T::WeightInfo::cancel_proposal())]
			pub fn cancel_proposal(origin: OriginFor<T>, #[pallet::compact] prop_index: u32) -> DispatchResult {
				T::CancelProposalOrigin::ensure_origin(origin)?;
				PublicProps::<T>::mutate(|l| l.retain(|p| p.0 != prop_index));
				Self::deposit_event(Event::ProposalCanceled { prop_index });
				Ok(())
			}
		}
		impl<T: Config> Pallet<T> {
			fn now() -> u32 {
				let mut n = frame_system::Pallet::<T>::block_number().encode();
				n.resize(4, 0);
				u32::from_le_bytes([n[0], n[1], n[2], n[3]])
			}
			fn not_black(h: &T::Hash) -> DispatchResult {
				if let Some((until, _)) = Blacklist::<T>::get(h) {
					ensure!(Self::now() >= until, Error::<T>::ProposalBlacklisted);
				}
				Ok(())
			}
			fn drop_ref(i: u32) {
				ReferendumInfoOf::<T>::remove(i);
				Self::deposit_event(Event::Cancelled { ref_index: i });
			}
		}
		#[pallet::hooks]
		impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	}
}

pub mod preimage {
	prelude!();
	weights![
		note_preimage(s), note_requested_preimage(s), note_no_deposit_preimage(s), unnote_preimage(), unnote_no_deposit_preimage(), request_preimage(),
		request_no_deposit_preimage(), request_unnoted_preimage(), request_requested_preimage(), unrequest_preimage(), unrequest_unnoted_preimage(),
		unrequest_multi_referenced_preimage(), ensure_updated(n)
	];
	#[crate::macros::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type WeightInfo: WeightInfo;
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type Currency;
			type ManagerOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
			type Consideration;
		}
		#[pallet::composite_enum]
		pub enum HoldReason {
			Preimage,
		}
		/// how often it is asked for
		#[pallet::storage]
		pub type RequestStatusFor<T: Config> = StorageMap<_, Identity, T::Hash, u32, OptionQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			Requested { hash: T::Hash },
			Cleared { hash: T::Hash },
		}
		#[pallet::error]
		pub enum Error<T> {
			NotRequested,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(2)]
			#[pallet::weight(T::WeightInfo::request_preimage())]
			pub fn request_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResult {
				T::ManagerOrigin::ensure_origin(origin)?;
				RequestStatusFor::<T>::insert(hash, RequestStatusFor::<T>::get(hash).unwrap_or(0) + 1);
				Self::deposit_event(Event::Requested { hash });
				Ok(())
			}
			#[pallet::call_index(3)]
			#[pallet::weight(T::WeightInfo::unrequest_preimage())]
			pub fn unrequest_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResult {
				T::ManagerOrigin::ensure_origin(origin)?;
				match RequestStatusFor::<T>::get(hash) {
					None => return Err(Error::<T>::NotRequested.into()),
					Some(1) => {
						RequestStatusFor::<T>::remove(hash);
						Self::deposit_event(Event::Cleared { hash });
					},
					Some(n) => RequestStatusFor::<T>::insert(hash, n - 1),
				}
				Ok(())
			}
		}
		#[pallet::hooks]
		impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	}
}

pub mod collator_selection {
	prelude!();
	weights![
		set_invulnerables(b), add_invulnerable(b, c), remove_invulnerable(b), set_desired_candidates(), set_candidacy_bond(c, k), update_bond(c),
		register_as_candidate(c), take_candidate_slot(c), leave_intent(c), note_author(), new_session(r, c)
	];
	pub struct IdentityCollator;
	#[crate::macros::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type Currency;
			type UpdateOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
			type PotId;
			type MaxCandidates: Get<u32>;
			type MinEligibleCollators: Get<u32>;
			type MaxInvulnerables: Get<u32>;
			type KickThreshold;
			type ValidatorId;
			type ValidatorIdOf;
			type ValidatorRegistration;
			type WeightInfo: WeightInfo;
		}
		#[pallet::genesis_config]
		#[derive(crate::macros::DefaultNoBound)]
		pub struct GenesisConfig<T: Config> {
			pub _config: PhantomData<T>,
		}
		#[pallet::genesis_build]
		impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
			fn build(&self) {}
		}
		#[pallet::storage]
		pub type Invulnerables<T: Config> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
		#[pallet::storage]
		pub type DesiredCandidates<T: Config> = StorageValue<_, u32, ValueQuery>;
		#[pallet::storage]
		pub type CandidacyBond<T: Config> = StorageValue<_, u128, ValueQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			NewInvulnerables { invulnerables: Vec<T::AccountId> },
			NewDesiredCandidates { desired_candidates: u32 },
			NewCandidacyBond { bond_amount: u128 },
		}
		#[pallet::error]
		pub enum Error<T> {
			TooFewEligibleCollators,
			TooManyInvulnerables,
			AlreadyInvulnerable,
			NotInvulnerable,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight(T::WeightInfo::set_invulnerables(new.len() as u32))]
			pub fn set_invulnerables(origin: OriginFor<T>, new: Vec<T::AccountId>) -> DispatchResult {
				T::UpdateOrigin::ensure_origin(origin)?;
				if new.is_empty() {
					ensure!(T::MinEligibleCollators::get() == 0, Error::<T>::TooFewEligibleCollators);
				}
				ensure!(new.len() <= T::MaxInvulnerables::get() as usize, Error::<T>::TooManyInvulnerables);
				let mut l = new;
				l.sort();
				l.dedup();
				Invulnerables::<T>::put(l.clone());
				Self::deposit_event(Event::NewInvulnerables { invulnerables: l });
				Ok(())
			}
			#[pallet::call_index(1)]
			#[pallet::weight(T::WeightInfo::set_desired_candidates())]
			pub fn set_desired_candidates(origin: OriginFor<T>, max: u32) -> DispatchResult {
				T::UpdateOrigin::ensure_origin(origin)?;
				DesiredCandidates::<T>::put(max);
				Self::deposit_event(Event::NewDesiredCandidates { desired_candidates: max });
				Ok(())
			}
			#[pallet::call_index(2)]
			#[pallet::weight(T::WeightInfo::set_candidacy_bond(T::MaxCandidates::get(), T::MaxCandidates::get()))]
			pub fn set_candidacy_bond(origin: OriginFor<T>, bond: u128) -> DispatchResult {
				T::UpdateOrigin::ensure_origin(origin)?;
				CandidacyBond::<T>::put(bond);
				Self::deposit_event(Event::NewCandidacyBond { bond_amount: bond });
				Ok(())
			}
			#[pallet::call_index(5)]
			#[pallet::weight(T::WeightInfo::add_invulnerable(T::MaxInvulnerables::get(), T::MaxCandidates::get()))]
			pub fn add_invulnerable(origin: OriginFor<T>, who: T::AccountId) -> DispatchResult {
				T::UpdateOrigin::ensure_origin(origin)?;
				let mut l = Invulnerables::<T>::get();
				ensure!(l.len() < T::MaxInvulnerables::get() as usize, Error::<T>::TooManyInvulnerables);
				let at = l.binary_search(&who).err().ok_or(Error::<T>::AlreadyInvulnerable)?;
				l.insert(at, who);
				Invulnerables::<T>::put(l);
				Ok(())
			}
			#[pallet::call_index(6)]
			#[pallet::weight(T::WeightInfo::remove_invulnerable(T::MaxInvulnerables::get()))]
			pub fn remove_invulnerable(origin: OriginFor<T>, who: T::AccountId) -> DispatchResult {
				T::UpdateOrigin::ensure_origin(origin)?;
				let mut l = Invulnerables::<T>::get();
				ensure!(l.len() as u32 > T::MinEligibleCollators::get(), Error::<T>::TooFewEligibleCollators);
				let at = l.binary_search(&who).map_err(|_| Error::<T>::NotInvulnerable)?;
				l.remove(at);
				Invulnerables::<T>::put(l);
				Ok(())
			}
		}
		#[pallet::hooks]
		impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	}
}

pub mod multisig {
	prelude!();
	weights![
		as_multi_threshold_1(z), as_multi_create(s, z), as_multi_approve(s, z), as_multi_complete(s, z), approve_as_multi_create(s),
		approve_as_multi_approve(s), cancel_as_multi(s)
	];
	#[derive(Encode, Decode, Clone, Copy, Eq, PartialEq, Debug, TypeInfo, Default, MaxEncodedLen)]
	pub struct Timepoint {
		pub height: u32,
		pub index: u32,
	}
	#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo)]
	pub struct Multisig<AccountId> {
		pub when: Timepoint,
		pub depositor: AccountId,
		pub approvals: Vec<AccountId>,
	}
	#[crate::macros::pallet]
	pub mod pallet {
		use super::*;
		#[pallet::pallet]
		pub struct Pallet<T>(_);
		#[pallet::config]
		pub trait Config: frame_system::Config {
			type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
			type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo;
			type Currency;
			type DepositBase;
			type DepositFactor;
			type MaxSignatories: Get<u32>;
			type WeightInfo: WeightInfo;
		}
		#[pallet::storage]
		pub type Multisigs<T: Config> = StorageDoubleMap<_, Twox64Concat, T::AccountId, Blake2_128Concat, [u8; 32], Multisig<T::AccountId>, OptionQuery>;
		#[pallet::event]
		#[pallet::generate_deposit(pub(super) fn deposit_event)]
		pub enum Event<T: Config> {
			NewMultisig { approving: T::AccountId, multisig: T::AccountId, call_hash: [u8; 32] },
			MultisigApproval { approving: T::AccountId, timepoint: Timepoint, multisig: T::AccountId, call_hash: [u8; 32] },
			MultisigExecuted { approving: T::AccountId, timepoint: Timepoint, multisig: T::AccountId, call_hash: [u8; 32], result: DispatchResult },
			MultisigCancelled { cancelling: T::AccountId, timepoint: Timepoint, multisig: T::AccountId, call_hash: [u8; 32] },
		}
		#[pallet::error]
		pub enum Error<T> {
			MinimumThreshold,
			AlreadyApproved,
			TooFewSignatories,
			TooManySignatories,
			SignatoriesOutOfOrder,
			SenderInSignatories,
			NotFound,
			NotOwner,
			NoTimepoint,
			WrongTimepoint,
			UnexpectedTimepoint,
			MaxWeightTooLow,
		}
		#[pallet::call]
		impl<T: Config> Pallet<T> {
			#[pallet::call_index(0)]
			#[pallet::weight({ let d = call.get_dispatch_info(); (T::WeightInfo::as_multi_threshold_1(call.encoded_size() as u32).saturating_add(d.weight), d.class) })]
			pub fn as_multi_threshold_1(origin: OriginFor<T>, other_signatories: Vec<T::AccountId>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
				let who = ensure_signed(origin)?;
				let all = Self::all(other_signatories, who)?;
				let id = multi_account_id::<T>(&all, 1);
				let result = call.dispatch(frame_system::RawOrigin::Signed(id).into());
				result.map(|_| ().into()).map_err(|e| e.error.into())
			}
			#[pallet::call_index(1)]
			#[pallet::weight(T::WeightInfo::as_multi_complete(other_signatories.len() as u32, call.encoded_size() as u32).saturating_add(*max_weight))]
			pub fn as_multi(
				origin: OriginFor<T>,
				threshold: u16,
				other_signatories: Vec<T::AccountId>,
				maybe_timepoint: Option<Timepoint>,
				call: Box<<T as Config>::RuntimeCall>,
				max_weight: Weight,
			) -> DispatchResultWithPostInfo {
				let who = ensure_signed(origin)?;
				let h = crate::hashing::blake2_256(&call.encode());
				Self::operate(who, threshold, other_signatories, maybe_timepoint, Some(*call), h, max_weight)
			}
			#[pallet::call_index(2)]
			#[pallet::weight(T::WeightInfo::approve_as_multi_approve(other_signatories.len() as u32))]
			pub fn approve_as_multi(
				origin: OriginFor<T>,
				threshold: u16,
				other_signatories: Vec<T::AccountId>,
				maybe_timepoint: Option<Timepoint>,
				call_hash: [u8; 32],
				max_weight: Weight,
			) -> DispatchResultWithPostInfo {
				let who = ensure_signed(origin)?;
				Self::operate(who, threshold, other_signatories, maybe_timepoint, None, call_hash, max_weight)
			}
			#[pallet::call_index(3)]
			#[pallet::weight(T::WeightInfo::cancel_as_multi(other_signatories.len() as u32))]
			pub fn cancel_as_multi(origin: OriginFor<T>, threshold: u16, other_signatories: Vec<T::AccountId>, timepoint: Timepoint, call_hash: [u8; 32]) -> DispatchResult {
				let who = ensure_signed(origin)?;
				ensure!(threshold >= 2, Error::<T>::MinimumThreshold);
				let all = Self::all(other_signatories, who.clone())?;
				let id = multi_account_id::<T>(&all, threshold);
				let m = Multisigs::<T>::get(&id, call_hash).ok_or(Error::<T>::NotFound)?;
				ensure!(m.when == timepoint, Error::<T>::WrongTimepoint);
				ensure!(m.depositor == who, Error::<T>::NotOwner);
				Multisigs::<T>::remove(&id, call_hash);
				Self::deposit_event(Event::MultisigCancelled { cancelling: who, timepoint, multisig: id, call_hash });
				Ok(())
			}
		}
		impl<T: Config> Pallet<T> {
			fn all(mut other: Vec<T::AccountId>, who: T::AccountId) -> Result<Vec<T::AccountId>, DispatchError> {
				ensure!(!other.is_empty(), Error::<T>::TooFewSignatories);
				ensure!(other.len() < T::MaxSignatories::get() as usize, Error::<T>::TooManySignatories);
				ensure!(other.windows(2).all(|w| w[0] < w[1]), Error::<T>::SignatoriesOutOfOrder);
				match other.binary_search(&who) {
					Ok(_) => Err(Error::<T>::SenderInSignatories.into()),
					Err(i) => {
						other.insert(i, who);
						Ok(other)
					},
				}
			}
			fn operate(
				who: T::AccountId,
				threshold: u16,
				other: Vec<T::AccountId>,
				timepoint: Option<Timepoint>,
				call: Option<<T as Config>::RuntimeCall>,
				call_hash: [u8; 32],
				max_weight: Weight,
			) -> DispatchResultWithPostInfo {
				ensure!(threshold >= 2, Error::<T>::MinimumThreshold);
				let all = Self::all(other, who.clone())?;
				let id = multi_account_id::<T>(&all, threshold);
				let Some(mut m) = Multisigs::<T>::get(&id, call_hash) else {
					ensure!(timepoint.is_none(), Error::<T>::UnexpectedTimepoint);
					let mut n = frame_system::Pallet::<T>::block_number().encode();
					n.resize(4, 0);
					let when = Timepoint { height: u32::from_le_bytes([n[0], n[1], n[2], n[3]]), index: frame_system::Pallet::<T>::extrinsic_index().unwrap_or(0) };
					Multisigs::<T>::insert(&id, call_hash, Multisig { when, depositor: who.clone(), approvals: vec![who.clone()] });
					Self::deposit_event(Event::NewMultisig { approving: who, multisig: id, call_hash });
					return Ok(().into())
				};
				let t = timepoint.ok_or(Error::<T>::NoTimepoint)?;
				ensure!(t == m.when, Error::<T>::WrongTimepoint);
				let mut approvals = m.approvals.len() as u16;
				let pos = m.approvals.binary_search(&who).err().filter(|_| approvals < threshold);
				if pos.is_some() {
					approvals += 1;
				}
				if let Some(call) = call.filter(|_| approvals >= threshold) {
					ensure!(call.get_dispatch_info().weight.all_lte(max_weight), Error::<T>::MaxWeightTooLow);
					Multisigs::<T>::remove(&id, call_hash);
					let result = call.dispatch(frame_system::RawOrigin::Signed(id.clone()).into());
					Self::deposit_event(Event::MultisigExecuted { approving: who, timepoint: t, multisig: id, call_hash, result: result.map(|_| ()).map_err(|e| e.error) });
					return Ok(().into())
				}
				let Some(pos) = pos else { return Err(Error::<T>::AlreadyApproved.into()) };
				m.approvals.insert(pos, who.clone());
				Multisigs::<T>::insert(&id, call_hash, m);
				Self::deposit_event(Event::MultisigApproval { approving: who, timepoint: t, multisig: id, call_hash });
				Ok(().into())
			}
		}
		#[pallet::hooks]
		impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	}
	pub fn multi_account_id<T: Config>(who: &[T::AccountId], threshold: u16) -> T::AccountId {
		let entropy = (b"modlpy/utilisuba", who.to_vec(), threshold).using_encoded(crate::hashing::blake2_256);
		let mut v = entropy.to_vec();
		v.resize(64, 0);
		Decode::decode(&mut &v[..]).expect("account id")
	}
}

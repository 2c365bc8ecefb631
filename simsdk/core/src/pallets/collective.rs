//! `pallet_collective`
use crate::codec::{self, Codec, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use crate::frame_support::dispatch::*;
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::frame_system::{self, pallet_prelude::*};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::{Dispatchable, Hash};
use crate::sp_runtime::DispatchError;
pub use pallet::*;
use std::marker::PhantomData;
pub type ProposalIndex = u32;
pub type MemberCount = u32;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Instance1;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Instance2;
pub trait DefaultVote {
	fn default_vote(prime: Option<bool>, yes: u32, no: u32, len: u32) -> bool;
}
pub struct PrimeDefaultVote;
impl DefaultVote for PrimeDefaultVote {
	fn default_vote(prime: Option<bool>, _: u32, _: u32, _: u32) -> bool {
		prime.unwrap_or(false)
	}
}
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
#[scale_info(skip_type_params(I))]
pub enum RawOrigin<AccountId, I> {
	Members(MemberCount, MemberCount),
	Member(AccountId),
	_Phantom(PhantomData<I>),
}
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo)]
pub struct Votes<AccountId, BlockNumber> {
	pub index: ProposalIndex,
	pub threshold: MemberCount,
	pub ayes: Vec<AccountId>,
	pub nays: Vec<AccountId>,
	pub end: BlockNumber,
}
pub mod weights {
	use crate::sp_weights::Weight;
	pub trait WeightInfo {
		fn set_members(m: u32, n: u32, p: u32) -> Weight;
		fn execute(b: u32, m: u32) -> Weight;
		fn propose_execute(b: u32, m: u32) -> Weight;
		fn propose_proposed(b: u32, m: u32, p: u32) -> Weight;
		fn vote(m: u32) -> Weight;
		fn close_early_disapproved(m: u32, p: u32) -> Weight;
		fn close_early_approved(b: u32, m: u32, p: u32) -> Weight;
		fn close_disapproved(m: u32, p: u32) -> Weight;
		fn close_approved(b: u32, m: u32, p: u32) -> Weight;
		fn disapprove_proposal(p: u32) -> Weight;
	}
}
pub use weights::WeightInfo;
#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeOrigin: From<RawOrigin<Self::AccountId, I>>;
		type Proposal: Parameter
			+ Dispatchable<RuntimeOrigin = <Self as Config<I>>::RuntimeOrigin, PostInfo = PostDispatchInfo>
			+ From<frame_system::Call<Self>>
			+ GetDispatchInfo;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type MotionDuration: Get<BlockNumberFor<Self>>;
		type MaxProposals: Get<ProposalIndex>;
		type MaxMembers: Get<MemberCount>;
		type DefaultVote: DefaultVote;
		type WeightInfo: WeightInfo;
		type SetMembersOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type MaxProposalWeight: Get<Weight>;
	}
	#[pallet::origin]
	pub type Origin<T, I = ()> = RawOrigin<<T as frame_system::Config>::AccountId, I>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		pub phantom: PhantomData<I>,
		pub members: Vec<T::AccountId>,
	}
	impl<T: Config<I>, I: 'static> Default for GenesisConfig<T, I> {
		fn default() -> Self {
			Self { phantom: PhantomData, members: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			let mut m = self.members.clone();
			m.sort();
			Members::<T, I>::put(m);
		}
	}
	#[pallet::storage]
	#[pallet::getter(fn proposals)]
	pub type Proposals<T: Config<I>, I: 'static = ()> = StorageValue<_, BoundedVec<T::Hash, T::MaxProposals>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn proposal_of)]
	pub type ProposalOf<T: Config<I>, I: 'static = ()> = StorageMap<_, Identity, T::Hash, <T as Config<I>>::Proposal, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn voting)]
	pub type Voting<T: Config<I>, I: 'static = ()> = StorageMap<_, Identity, T::Hash, Votes<T::AccountId, BlockNumberFor<T>>, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn proposal_count)]
	pub type ProposalCount<T: Config<I>, I: 'static = ()> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn members)]
	pub type Members<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn prime)]
	pub type Prime<T: Config<I>, I: 'static = ()> = StorageValue<_, T::AccountId, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Proposed { account: T::AccountId, proposal_index: ProposalIndex, proposal_hash: T::Hash, threshold: MemberCount },
		Voted { account: T::AccountId, proposal_hash: T::Hash, voted: bool, yes: MemberCount, no: MemberCount },
		Approved { proposal_hash: T::Hash },
		Disapproved { proposal_hash: T::Hash },
		Executed { proposal_hash: T::Hash, result: DispatchResult },
		MemberExecuted { proposal_hash: T::Hash, result: DispatchResult },
		Closed { proposal_hash: T::Hash, yes: MemberCount, no: MemberCount },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		NotMember,
		DuplicateProposal,
		ProposalMissing,
		WrongIndex,
		DuplicateVote,
		AlreadyInitialized,
		TooEarly,
		TooManyProposals,
		WrongProposalWeight,
		WrongProposalLength,
		PrimeAccountNotMember,
	}
	#[pallet::hooks]
	impl<T: Config<I>, I: 'static> Hooks<BlockNumberFor<T>> for Pallet<T, I> {}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight((T::WeightInfo::set_members(*old_count, new_members.len() as u32, T::MaxProposals::get()), DispatchClass::Operational))]
		pub fn set_members(origin: OriginFor<T>, new_members: Vec<T::AccountId>, prime: Option<T::AccountId>, old_count: MemberCount) -> DispatchResultWithPostInfo {
			T::SetMembersOrigin::ensure_origin(origin)?;
			let _ = old_count;
			if let Some(p) = &prime {
				ensure!(new_members.contains(p), Error::<T, I>::PrimeAccountNotMember);
			}
			let mut m = new_members;
			m.sort();
			// those who leave take their votes along
			for h in Proposals::<T, I>::get().iter() {
				if let Some(mut v) = Voting::<T, I>::get(h) {
					v.ayes.retain(|a| m.contains(a));
					v.nays.retain(|a| m.contains(a));
					Voting::<T, I>::insert(h, v);
				}
			}
			Members::<T, I>::put(m);
			Prime::<T, I>::set(prime);
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((T::WeightInfo::execute(*length_bound, T::MaxMembers::get()).saturating_add(proposal.get_dispatch_info().weight), DispatchClass::Operational))]
		pub fn execute(origin: OriginFor<T>, proposal: Box<<T as Config<I>>::Proposal>, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			ensure!(proposal.encoded_size() <= length_bound as usize, Error::<T, I>::WrongProposalLength);
			let proposal_hash = T::Hashing::hash_of(&proposal);
			let result = proposal.dispatch(RawOrigin::Member(who).into());
			Self::deposit_event(Event::MemberExecuted { proposal_hash, result: result.map(|_| ()).map_err(|e| e.error) });
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((if *threshold < 2 {
			T::WeightInfo::propose_execute(*length_bound, T::MaxMembers::get()).saturating_add(proposal.get_dispatch_info().weight)
		} else {
			T::WeightInfo::propose_proposed(*length_bound, T::MaxMembers::get(), T::MaxProposals::get())
		}, DispatchClass::Operational))]
		pub fn propose(
			origin: OriginFor<T>,
			#[pallet::compact] threshold: MemberCount,
			proposal: Box<<T as Config<I>>::Proposal>,
			#[pallet::compact] length_bound: u32,
		) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			if threshold < 2 {
				ensure!(proposal.encoded_size() <= length_bound as usize, Error::<T, I>::WrongProposalLength);
				let proposal_hash = T::Hashing::hash_of(&proposal);
				let seats = Self::members().len() as MemberCount;
				let result = proposal.dispatch(RawOrigin::Members(1, seats).into());
				Self::deposit_event(Event::Executed { proposal_hash, result: result.map(|_| ()).map_err(|e| e.error) });
			} else {
				Self::do_propose_proposed(who, threshold, proposal, length_bound)?;
			}
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((T::WeightInfo::vote(T::MaxMembers::get()), DispatchClass::Operational))]
		pub fn vote(origin: OriginFor<T>, proposal: T::Hash, #[pallet::compact] index: ProposalIndex, approve: bool) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			let mut v = Voting::<T, I>::get(&proposal).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(v.index == index, Error::<T, I>::WrongIndex);
			let had = if approve { v.ayes.contains(&who) } else { v.nays.contains(&who) };
			ensure!(!had, Error::<T, I>::DuplicateVote);
			v.ayes.retain(|a| a != &who);
			v.nays.retain(|a| a != &who);
			if approve {
				v.ayes.push(who.clone());
			} else {
				v.nays.push(who.clone());
			}
			let (yes, no) = (v.ayes.len() as u32, v.nays.len() as u32);
			Voting::<T, I>::insert(&proposal, v);
			Self::deposit_event(Event::Voted { account: who, proposal_hash: proposal, voted: approve, yes, no });
			Ok(Pays::Yes.into())
		}
		#[pallet::call_index(5)]
		#[pallet::weight((T::WeightInfo::disapprove_proposal(T::MaxProposals::get()), DispatchClass::Operational))]
		pub fn disapprove_proposal(origin: OriginFor<T>, proposal_hash: T::Hash) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			Self::deposit_event(Event::Disapproved { proposal_hash });
			Self::remove_proposal(proposal_hash);
			Ok(().into())
		}
		#[pallet::call_index(6)]
		#[pallet::weight((T::WeightInfo::close_approved(*length_bound, T::MaxMembers::get(), T::MaxProposals::get()).saturating_add(*proposal_weight_bound), DispatchClass::Operational))]
		pub fn close(
			origin: OriginFor<T>,
			proposal_hash: T::Hash,
			#[pallet::compact] index: ProposalIndex,
			proposal_weight_bound: Weight,
			#[pallet::compact] length_bound: u32,
		) -> DispatchResultWithPostInfo {
			let _ = ensure_signed(origin)?;
			let v = Voting::<T, I>::get(&proposal_hash).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(v.index == index, Error::<T, I>::WrongIndex);
			let mut no = v.nays.len() as MemberCount;
			let mut yes = v.ayes.len() as MemberCount;
			let seats = Self::members().len() as MemberCount;
			let approved = yes >= v.threshold;
			let disapproved = seats.saturating_sub(no) < v.threshold;
			let exec = |yes: u32| -> Result<(), DispatchError> {
				let p = ProposalOf::<T, I>::get(&proposal_hash).ok_or(Error::<T, I>::ProposalMissing)?;
				ensure!(p.encoded_size() <= length_bound as usize, Error::<T, I>::WrongProposalLength);
				ensure!(p.get_dispatch_info().weight.all_lte(proposal_weight_bound), Error::<T, I>::WrongProposalWeight);
				Self::deposit_event(Event::Approved { proposal_hash });
				let r = p.dispatch(RawOrigin::Members(yes, seats).into());
				Self::deposit_event(Event::Executed { proposal_hash, result: r.map(|_| ()).map_err(|e| e.error) });
				Self::remove_proposal(proposal_hash);
				Ok(())
			};
			if approved {
				Self::deposit_event(Event::Closed { proposal_hash, yes, no });
				exec(yes)?;
				return Ok(Pays::Yes.into())
			} else if disapproved {
				Self::deposit_event(Event::Closed { proposal_hash, yes, no });
				Self::deposit_event(Event::Disapproved { proposal_hash });
				Self::remove_proposal(proposal_hash);
				return Ok(Pays::No.into())
			}
			ensure!(frame_system::Pallet::<T>::block_number() >= v.end, Error::<T, I>::TooEarly);
			let prime_vote = Self::prime().map(|p| v.ayes.iter().any(|a| a == &p));
			let default = T::DefaultVote::default_vote(prime_vote, yes, no, seats);
			let abstentions = seats - (yes + no);
			if default {
				yes += abstentions;
			} else {
				no += abstentions;
			}
			Self::deposit_event(Event::Closed { proposal_hash, yes, no });
			if yes >= v.threshold {
				exec(yes)?;
			} else {
				Self::deposit_event(Event::Disapproved { proposal_hash });
				Self::remove_proposal(proposal_hash);
			}
			Ok(Pays::No.into())
		}
	}
}
impl<T: Config<I>, I: 'static> Pallet<T, I> {
	pub fn is_member(who: &T::AccountId) -> bool {
		Self::members().contains(who)
	}
	pub fn do_propose_proposed(
		who: T::AccountId,
		threshold: MemberCount,
		proposal: Box<<T as Config<I>>::Proposal>,
		length_bound: MemberCount,
	) -> Result<(u32, u32), DispatchError> {
		let proposal_len = proposal.encoded_size();
		ensure!(proposal_len <= length_bound as usize, Error::<T, I>::WrongProposalLength);
		ensure!(proposal.get_dispatch_info().weight.all_lte(T::MaxProposalWeight::get()), Error::<T, I>::WrongProposalWeight);
		let proposal_hash = T::Hashing::hash_of(&proposal);
		ensure!(!ProposalOf::<T, I>::contains_key(proposal_hash), Error::<T, I>::DuplicateProposal);
		let active = Proposals::<T, I>::try_mutate(|p| -> Result<usize, DispatchError> {
			p.try_push(proposal_hash).map_err(|_| Error::<T, I>::TooManyProposals)?;
			Ok(p.len())
		})?;
		let index = Self::proposal_count();
		ProposalCount::<T, I>::mutate(|i| *i += 1);
		ProposalOf::<T, I>::insert(proposal_hash, *proposal);
		let end = frame_system::Pallet::<T>::block_number() + T::MotionDuration::get();
		Voting::<T, I>::insert(proposal_hash, Votes { index, threshold, ayes: vec![], nays: vec![], end });
		Self::deposit_event(Event::Proposed { account: who, proposal_index: index, proposal_hash, threshold });
		Ok((proposal_len as u32, active as u32))
	}
	fn remove_proposal(h: T::Hash) {
		ProposalOf::<T, I>::remove(h);
		Voting::<T, I>::remove(h);
		Proposals::<T, I>::mutate(|p| p.retain(|x| *x != h));
	}
}
macro_rules! ensure_impl {
	($n:ident <$(const $c:ident: $ct:ty),*>, $succ:ty, |$o:ident| $body:expr) => {
		pub struct $n<AccountId, I: 'static, $(const $c: $ct),*>(PhantomData<(AccountId, I)>);
		impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, $(const $c: $ct),*> EnsureOrigin<O> for $n<A, I, $($c),*> {
			type Success = ();
			fn try_origin(o: O) -> Result<(), O> {
				o.into().and_then(|$o| $body)
			}
		}
	};
}
pub struct EnsureMember<AccountId, I: 'static>(PhantomData<(AccountId, I)>);
impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I> EnsureOrigin<O> for EnsureMember<A, I> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Member(id) => Ok(id),
			r => Err(O::from(r)),
		})
	}
}
ensure_impl!(EnsureMembers<const N: u32>, (), |o| match o {
	RawOrigin::Members(n, _) if n >= N => Ok(()),
	r => Err(O::from(r)),
});
ensure_impl!(EnsureProportionMoreThan<const N: u32, const D: u32>, (), |o| match o {
	RawOrigin::Members(n, m) if n * D > N * m => Ok(()),
	r => Err(O::from(r)),
});
ensure_impl!(EnsureProportionAtLeast<const N: u32, const D: u32>, (), |o| match o {
	RawOrigin::Members(n, m) if n * D >= N * m => Ok(()),
	r => Err(O::from(r)),
});

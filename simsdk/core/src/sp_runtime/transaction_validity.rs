use crate::codec::{self, *};
use crate::macros::{Decode, Encode, TypeInfo};
use crate::scale_info;
pub type TransactionPriority = u64;
pub type TransactionLongevity = u64;
pub type TransactionTag = Vec<u8>;

#[derive(Clone, PartialEq, Eq, Copy, Debug, Encode, Decode, TypeInfo)]
pub enum InvalidTransaction {
	Call,
	Payment,
	Future,
	Stale,
	BadProof,
	AncientBirthBlock,
	ExhaustsResources,
	Custom(u8),
	BadMandatory,
	MandatoryValidation,
	BadSigner,
}
#[derive(Clone, PartialEq, Eq, Copy, Debug, Encode, Decode, TypeInfo)]
pub enum UnknownTransaction {
	CannotLookup,
	NoUnsignedValidator,
	Custom(u8),
}
#[derive(Clone, PartialEq, Eq, Copy, Debug, Encode, Decode, TypeInfo)]
pub enum TransactionValidityError {
	Invalid(InvalidTransaction),
	Unknown(UnknownTransaction),
}
impl TransactionValidityError {
	pub fn exhausted_resources(&self) -> bool {
		matches!(self, Self::Invalid(InvalidTransaction::ExhaustsResources))
	}
	pub fn was_mandatory(&self) -> bool {
		matches!(self, Self::Invalid(InvalidTransaction::BadMandatory))
	}
}
impl From<InvalidTransaction> for TransactionValidityError {
	fn from(e: InvalidTransaction) -> Self {
		TransactionValidityError::Invalid(e)
	}
}
impl From<UnknownTransaction> for TransactionValidityError {
	fn from(e: UnknownTransaction) -> Self {
		TransactionValidityError::Unknown(e)
	}
}
impl From<TransactionValidityError> for &'static str {
	fn from(e: TransactionValidityError) -> &'static str {
		match e {
			TransactionValidityError::Invalid(_) => "invalid transaction",
			TransactionValidityError::Unknown(_) => "unknown transaction",
		}
	}
}
pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
impl From<InvalidTransaction> for TransactionValidity {
	fn from(e: InvalidTransaction) -> Self {
		Err(e.into())
	}
}
impl From<UnknownTransaction> for TransactionValidity {
	fn from(e: UnknownTransaction) -> Self {
		Err(e.into())
	}
}
#[derive(Copy, Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum TransactionSource {
	InBlock,
	Local,
	External,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct ValidTransaction {
	pub priority: TransactionPriority,
	pub requires: Vec<TransactionTag>,
	pub provides: Vec<TransactionTag>,
	pub longevity: TransactionLongevity,
	pub propagate: bool,
}
impl Default for ValidTransaction {
	fn default() -> Self {
		Self { priority: 0, requires: vec![], provides: vec![], longevity: TransactionLongevity::max_value(), propagate: true }
	}
}
impl ValidTransaction {
	pub fn with_tag_prefix(prefix: &'static str) -> ValidTransactionBuilder {
		ValidTransactionBuilder { prefix: Some(prefix), validity: Default::default() }
	}
	pub fn combine_with(mut self, mut other: ValidTransaction) -> Self {
		Self {
			priority: self.priority.saturating_add(other.priority),
			requires: {
				self.requires.append(&mut other.requires);
				self.requires
			},
			provides: {
				self.provides.append(&mut other.provides);
				self.provides
			},
			longevity: self.longevity.min(other.longevity),
			propagate: self.propagate && other.propagate,
		}
	}
}
#[derive(Default, Clone, Debug)]
pub struct ValidTransactionBuilder {
	prefix: Option<&'static str>,
	validity: ValidTransaction,
}
impl ValidTransactionBuilder {
	pub fn priority(mut self, p: TransactionPriority) -> Self {
		self.validity.priority = p;
		self
	}
	pub fn longevity(mut self, l: TransactionLongevity) -> Self {
		self.validity.longevity = l;
		self
	}
	pub fn propagate(mut self, p: bool) -> Self {
		self.validity.propagate = p;
		self
	}
	pub fn and_requires(mut self, tag: impl Encode) -> Self {
		self.validity.requires.push(match self.prefix.as_ref() {
			Some(p) => (p, tag).encode(),
			None => tag.encode(),
		});
		self
	}
	pub fn and_provides(mut self, tag: impl Encode) -> Self {
		self.validity.provides.push(match self.prefix.as_ref() {
			Some(p) => (p, tag).encode(),
			None => tag.encode(),
		});
		self
	}
	pub fn combine_with(mut self, v: ValidTransaction) -> Self {
		self.validity = std::mem::take(&mut self.validity).combine_with(v);
		self
	}
	pub fn build(self) -> TransactionValidity {
		self.into()
	}
}
impl From<ValidTransactionBuilder> for TransactionValidity {
	fn from(b: ValidTransactionBuilder) -> Self {
		Ok(b.validity)
	}
}
impl From<ValidTransactionBuilder> for ValidTransaction {
	fn from(b: ValidTransactionBuilder) -> Self {
		b.validity
	}
}

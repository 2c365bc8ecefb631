//! `sp_version`
pub type ApisVec = &'static [([u8; 8], u32)];
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct RuntimeVersion {
	pub spec_name: &'static str,
	pub impl_name: &'static str,
	pub authoring_version: u32,
	pub spec_version: u32,
	pub impl_version: u32,
	pub apis: ApisVec,
	pub transaction_version: u32,
	pub state_version: u8,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct NativeVersion {
	pub runtime_version: RuntimeVersion,
	pub can_author_with: std::collections::HashSet<u32>,
}

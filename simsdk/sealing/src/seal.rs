//! sc-consensus-manual-seal of polkadot-v1.6.0, on the stand-in traits.
use crate::block_import::{BlockImport, BlockImportParams, ImportResult};
use crate::*;
use futures::channel::oneshot;
use std::marker::PhantomData;
use std::sync::Arc;

pub const MANUAL_SEAL_ENGINE_ID: [u8; 4] = *b"manl";
#[derive(Debug, Clone, PartialEq)]
pub struct CreatedBlock<H> {
	pub hash: H,
	pub proof_size: usize,
}
pub type Answer<T> = Option<oneshot::Sender<Result<T, String>>>;
#[derive(Debug)]
pub enum EngineCommand<H> {
	SealNewBlock { create_empty: bool, finalize: bool, parent_hash: Option<H>, sender: Answer<CreatedBlock<H>> },
	FinalizeBlock { hash: H, sender: Answer<()>, justification: Option<Vec<u8>> },
}
pub trait ConsensusDataProvider<B> {
	type Proof;
}
pub struct ManualSealParams<B: traits::Block, BI, E, C, TP, SC, CS, CIDP, P> {
	pub block_import: BI,
	pub env: E,
	pub client: Arc<C>,
	pub pool: Arc<TP>,
	pub commands_stream: CS,
	pub select_chain: SC,
	pub consensus_data_provider: Option<Box<dyn ConsensusDataProvider<B, Proof = P>>>,
	pub create_inherent_data_providers: CIDP,
}
pub struct SealBlockParams<'a, B: traits::Block, BI, SC, C, E, TP, CIDP, P> {
	pub sender: Answer<CreatedBlock<B::Hash>>,
	pub parent_hash: Option<B::Hash>,
	pub finalize: bool,
	pub create_empty: bool,
	pub pool: Arc<TP>,
	pub client: Arc<C>,
	pub env: &'a mut E,
	pub select_chain: &'a SC,
	pub consensus_data_provider: Option<&'a dyn ConsensusDataProvider<B, Proof = P>>,
	pub block_import: &'a mut BI,
	pub create_inherent_data_providers: &'a CIDP,
}
pub struct FinalizeBlockParams<B: traits::Block, F, CB> {
	pub hash: B::Hash,
	pub sender: Answer<()>,
	pub justification: Option<([u8; 4], Vec<u8>)>,
	pub finalizer: Arc<F>,
	pub _phantom: PhantomData<CB>,
}
fn send<T>(s: &mut Answer<T>, r: Result<T, String>) {
	if let Some(s) = s.take() {
		let _ = s.send(r);
	}
}
pub async fn seal_block<B, BI, SC, C, E, TP, CIDP, P>(
	SealBlockParams { mut sender, parent_hash, finalize, create_empty, pool, client, env, select_chain, block_import, create_inherent_data_providers, .. }: SealBlockParams<
		'_,
		B,
		BI,
		SC,
		C,
		E,
		TP,
		CIDP,
		P,
	>,
) where
	B: traits::Block,
	BI: BlockImport<B, Error = crate::Error>,
	C: HeaderBackend<B> + ProvideRuntimeApi<B>,
	E: Environment<B>,
	E::Proposer: Proposer<B, Proof = P>,
	TP: TransactionPool<Block = B>,
	SC: SelectChain<B>,
	CIDP: CreateInherentDataProviders<B, ()>,
	P: Encode,
{
	let future = async {
		if pool.status().ready == 0 && !create_empty {
			return Err("transaction pool is empty".to_string())
		}
		let parent = match parent_hash {
			Some(h) => client.header(h).ok_or("block not found")?,
			None => select_chain.best_chain().await.map_err(|e| e.0)?,
		};
		let inherents = create_inherent_data_providers.provide(B::hash_of(&parent)).await?;
		let proposer = env.init(&parent).await.map_err(|e| e.0)?;
		let (block, proof) = proposer.propose(inherents).await.map_err(|e| e.0)?;
		if B::extrinsics(&block) == inherents && !create_empty {
			return Err("transaction pool is empty".to_string())
		}
		let hash = B::block_hash(&block);
		let size = proof.encode().len();
		match block_import.import_block(BlockImportParams { block, finalized: finalize }).await.map_err(|e| e.0)? {
			ImportResult::Imported => Ok(CreatedBlock { hash, proof_size: size }),
			ImportResult::Refused => Err("import refused".to_string()),
		}
	};
	let r = future.await;
	send(&mut sender, r)
}
pub async fn finalize_block<B, F, CB>(p: FinalizeBlockParams<B, F, CB>)
where
	B: traits::Block,
	F: backend::Finalizer<B, CB>,
	CB: backend::Backend<B>,
{
	let FinalizeBlockParams { hash, mut sender, justification, finalizer, .. } = p;
	let r = finalizer.finalize_block(hash, justification, true).map_err(|e| e.0);
	send(&mut sender, r)
}

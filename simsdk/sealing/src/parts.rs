//! The stand-ins of what a node consists of.
use crate::world::{self, with, Blk, Fault, Hash, Tx};
use futures::channel::mpsc;
use futures::future::{BoxFuture, FutureExt, LocalBoxFuture};
use futures::Stream;
use std::future::Future;
use std::sync::Arc;

#[derive(Debug)]
pub struct Error(pub String);
pub mod error {
	pub use crate::Error;
}
pub mod traits {
	pub trait Block: Sized + 'static {
		type Hash: Copy + Send + Sync + std::fmt::Debug + 'static;
		type Header;
		fn hash_of(h: &Self::Header) -> Self::Hash;
		fn block_hash(b: &Self) -> Self::Hash;
		fn extrinsics(b: &Self) -> usize;
	}
}
impl traits::Block for Blk {
	type Hash = Hash;
	type Header = Blk;
	fn hash_of(h: &Blk) -> Hash {
		h.hash
	}
	fn block_hash(b: &Blk) -> Hash {
		b.hash
	}
	fn extrinsics(b: &Blk) -> usize {
		b.txs.len() + 1
	}
}
pub trait Encode {
	fn encode(&self) -> Vec<u8>;
}
impl Encode for () {
	fn encode(&self) -> Vec<u8> {
		vec![]
	}
}
pub mod block_import {
	use super::*;
	pub struct BlockImportParams<B> {
		pub block: B,
		pub finalized: bool,
	}
	pub enum ImportResult {
		Imported,
		Refused,
	}
	pub trait BlockImport<B> {
		type Error;
		fn import_block(&mut self, p: BlockImportParams<B>) -> LocalBoxFuture<'_, Result<ImportResult, Self::Error>>;
	}
	impl BlockImport<Blk> for Arc<Client> {
		type Error = Error;
		fn import_block(&mut self, p: BlockImportParams<Blk>) -> LocalBoxFuture<'_, Result<ImportResult, Error>> {
			async move {
				pause().await;
				if with(|w| w.takes(Fault::Import)) {
					return Ok(ImportResult::Refused)
				}
				with(|w| w.import(p.block, p.finalized)).map_err(Error)?;
				Ok(ImportResult::Imported)
			}
			.boxed_local()
		}
	}
}
/// a moment in which others may go on, longer when the world is slow
pub async fn pause() {
	let d = with(|w| w.slow());
	if d > 0 {
		with(|w| w.busy = true);
		crate::time::sleep(std::time::Duration::from_millis(d)).await;
		with(|w| w.busy = false);
	} else if with(|w| w.rand(3)) == 0 {
		let mut once = false;
		futures::future::poll_fn(|cx| {
			if once {
				return std::task::Poll::Ready(())
			}
			once = true;
			cx.waker().wake_by_ref();
			std::task::Poll::Pending
		})
		.await
	}
}
pub mod backend {
	use super::*;
	pub trait Backend<B> {}
	pub trait Finalizer<B: traits::Block, CB> {
		fn finalize_block(&self, h: B::Hash, j: Option<([u8; 4], Vec<u8>)>, notify: bool) -> Result<(), Error>;
	}
	impl Finalizer<Blk, FullBackend> for Client {
		fn finalize_block(&self, h: Hash, j: Option<([u8; 4], Vec<u8>)>, _: bool) -> Result<(), Error> {
			with(|w| {
				w.finalize(h).map_err(Error)?;
				if let Some(j) = j {
					w.justified.push((h, j.0, j.1));
				}
				Ok(())
			})
		}
	}
	impl Backend<Blk> for FullBackend {}
}
#[derive(Default)]
pub struct FullBackend;
#[derive(Clone, Debug, PartialEq)]
pub struct OffchainDb;
impl FullBackend {
	pub fn offchain_storage(&self) -> Option<OffchainDb> {
		Some(OffchainDb)
	}
}
#[derive(Default)]
pub struct Client;
pub trait ProvideRuntimeApi<B> {}
impl ProvideRuntimeApi<Blk> for Client {}
pub trait HeaderBackend<B: traits::Block> {
	fn header(&self, h: B::Hash) -> Option<B::Header>;
}
impl HeaderBackend<Blk> for Client {
	fn header(&self, h: Hash) -> Option<Blk> {
		with(|w| w.block(h).cloned())
	}
}
pub trait SelectChain<B: traits::Block> {
	fn best_chain(&self) -> LocalBoxFuture<'_, Result<B::Header, Error>>;
}
#[derive(Clone)]
pub struct LongestChain;
impl SelectChain<Blk> for LongestChain {
	fn best_chain(&self) -> LocalBoxFuture<'_, Result<Blk, Error>> {
		async {
			if with(|w| w.takes(Fault::Best)) {
				return Err(Error("no best chain".into()))
			}
			Ok(with(|w| w.block(w.best).cloned().unwrap()))
		}
		.boxed_local()
	}
}
pub trait Proposer<B> {
	type Proof;
	fn propose(self, inherents: usize) -> LocalBoxFuture<'static, Result<(B, Self::Proof), Error>>;
}
pub trait Environment<B: traits::Block> {
	type Proposer: Proposer<B> + 'static;
	fn init(&mut self, parent: &B::Header) -> LocalBoxFuture<'static, Result<Self::Proposer, Error>>;
}
pub struct ProposerFactory;
impl ProposerFactory {
	pub fn new(_: SpawnHandle, _: Arc<Client>, _: Arc<FullPool>, _: Option<&Registry>, _: Option<TelemetryHandle>) -> Self {
		ProposerFactory
	}
}
pub struct Author(Blk);
impl Environment<Blk> for ProposerFactory {
	type Proposer = Author;
	fn init(&mut self, parent: &Blk) -> LocalBoxFuture<'static, Result<Author, Error>> {
		let p = parent.clone();
		async move {
			pause().await;
			if with(|w| w.takes(Fault::Init)) {
				return Err(Error("cannot begin a block".into()))
			}
			Ok(Author(p))
		}
		.boxed_local()
	}
}
impl Proposer<Blk> for Author {
	type Proof = ();
	fn propose(self, _: usize) -> LocalBoxFuture<'static, Result<(Blk, ()), Error>> {
		async move {
			pause().await;
			with(|w| {
				if w.takes(Fault::Propose) {
					return Err(Error("proposal failed".into()))
				}
				let none = w.takes(Fault::Full);
				let have = w.included(self.0.hash);
				let txs: Vec<Tx> = if none { vec![] } else { w.ready.iter().copied().filter(|t| !have.contains(t)).collect() };
				Ok((Blk { hash: w.fresh(), parent: self.0.hash, number: self.0.number + 1, txs, time: w.now, finalized: false, sealed_final: false }, ()))
			})
		}
		.boxed_local()
	}
}
// --- inherents
pub struct InherentDataProvider(u64);
impl InherentDataProvider {
	pub fn from_system_time() -> Self {
		InherentDataProvider(with(|w| w.now))
	}
}
pub trait CreateInherentDataProviders<B: traits::Block, X> {
	fn provide(&self, h: B::Hash) -> LocalBoxFuture<'_, Result<usize, String>>;
}
impl<F, Fut> CreateInherentDataProviders<Blk, ()> for F
where
	F: Fn(Hash, ()) -> Fut,
	Fut: Future<Output = Result<(InherentDataProvider,), Box<dyn std::error::Error + Send + Sync>>> + 'static,
{
	fn provide(&self, h: Hash) -> LocalBoxFuture<'_, Result<usize, String>> {
		let f = self(h, ());
		async move {
			let (t,) = f.await.map_err(|e| e.to_string())?;
			if with(|w| w.takes(Fault::Inherents) || t.0 != w.now) {
				return Err("no inherents".into())
			}
			Ok(1)
		}
		.boxed_local()
	}
}
// --- pool
#[derive(Default)]
pub struct FullPool {
	pool: Arc<Pool>,
}
#[derive(Default)]
pub struct Pool {
	v: Arc<ValidatedPool>,
}
#[derive(Default)]
pub struct ValidatedPool;
impl FullPool {
	pub fn pool(&self) -> &Arc<Pool> {
		&self.pool
	}
}
impl Pool {
	pub fn validated_pool(&self) -> &Arc<ValidatedPool> {
		&self.v
	}
}
impl ValidatedPool {
	pub fn import_notification_stream(&self) -> mpsc::UnboundedReceiver<Tx> {
		let (a, b) = mpsc::unbounded();
		with(|w| w.sinks.push(a));
		b
	}
}
#[derive(Debug, Clone)]
pub struct PoolStatus {
	pub ready: usize,
	pub ready_bytes: usize,
	pub future: usize,
	pub future_bytes: usize,
}
impl PoolStatus {
	pub fn is_empty(&self) -> bool {
		self.ready == 0 && self.future == 0
	}
}
pub trait TransactionPool: Send + Sync {
	type Block: traits::Block;
	fn status(&self) -> PoolStatus;
	fn ready(&self) -> Box<dyn Iterator<Item = Arc<Tx>> + Send>;
	fn import_notification_stream(&self) -> mpsc::UnboundedReceiver<Tx>;
	fn futures(&self) -> Vec<Tx>;
}
impl TransactionPool for FullPool {
	type Block = Blk;
	fn status(&self) -> PoolStatus {
		with(|w| PoolStatus { ready: w.ready.len(), ready_bytes: w.ready.len() * 100, future: w.future.len(), future_bytes: w.future.len() * 100 })
	}
	fn ready(&self) -> Box<dyn Iterator<Item = Arc<Tx>> + Send> {
		Box::new(with(|w| w.ready.clone()).into_iter().map(Arc::new))
	}
	fn import_notification_stream(&self) -> mpsc::UnboundedReceiver<Tx> {
		self.pool.v.import_notification_stream()
	}
	fn futures(&self) -> Vec<Tx> {
		with(|w| w.future.keys().copied().collect())
	}
}
pub struct OffchainTransactionPoolFactory;
impl OffchainTransactionPoolFactory {
	pub fn new(_: Arc<FullPool>) -> Self {
		OffchainTransactionPoolFactory
	}
}
// --- service
pub mod config {
	pub struct FullNetworkConfiguration;
	impl FullNetworkConfiguration {
		pub fn new(_: &NetworkConfiguration) -> Self {
			FullNetworkConfiguration
		}
	}
	#[derive(Default, Clone)]
	pub struct NetworkConfiguration;
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
	Authority,
	Full,
}
impl Role {
	pub fn is_authority(&self) -> bool {
		*self == Role::Authority
	}
}
pub struct OffchainWorkerConfig {
	pub enabled: bool,
	pub indexing_enabled: bool,
}
pub struct PrometheusConfig;
#[derive(Clone)]
pub struct Registry;
pub struct Configuration {
	pub network: config::NetworkConfiguration,
	pub offchain_worker: OffchainWorkerConfig,
	pub role: Role,
}
impl Configuration {
	pub fn prometheus_registry(&self) -> Option<&Registry> {
		None
	}
}
#[derive(Clone)]
pub struct SpawnHandle;
#[derive(Clone)]
pub struct SpawnEssentialTaskHandle;
impl SpawnHandle {
	pub fn spawn(&self, n: &'static str, _: impl Into<Option<&'static str>>, f: impl Future<Output = ()> + 'static) {
		world::spawn(n, false, f.boxed_local())
	}
	pub fn spawn_blocking(&self, n: &'static str, g: impl Into<Option<&'static str>>, f: impl Future<Output = ()> + 'static) {
		self.spawn(n, g, f)
	}
}
impl SpawnEssentialTaskHandle {
	pub fn spawn(&self, n: &'static str, _: impl Into<Option<&'static str>>, f: impl Future<Output = ()> + 'static) {
		world::spawn(n, true, f.boxed_local())
	}
	pub fn spawn_blocking(&self, n: &'static str, g: impl Into<Option<&'static str>>, f: impl Future<Output = ()> + 'static) {
		self.spawn(n, g, f)
	}
}
#[derive(Default)]
pub struct TaskManager;
impl TaskManager {
	pub fn spawn_handle(&self) -> SpawnHandle {
		SpawnHandle
	}
	pub fn spawn_essential_handle(&self) -> SpawnEssentialTaskHandle {
		SpawnEssentialTaskHandle
	}
}
pub struct Keystore;
pub struct KeystoreContainer;
impl KeystoreContainer {
	pub fn keystore(&self) -> Arc<Keystore> {
		Arc::new(Keystore)
	}
}
pub struct Telemetry;
#[derive(Clone)]
pub struct TelemetryHandle;
impl Telemetry {
	pub fn handle(&self) -> TelemetryHandle {
		TelemetryHandle
	}
}
pub struct ImportQueue;
pub struct PartialComponents<C, B, S, I, T, O> {
	pub client: Arc<C>,
	pub backend: Arc<B>,
	pub task_manager: TaskManager,
	pub import_queue: I,
	pub keystore_container: KeystoreContainer,
	pub select_chain: S,
	pub transaction_pool: Arc<T>,
	pub other: O,
}
pub mod service {
	use super::*;
	pub fn new_partial(
		_: &Configuration,
		instant: bool,
	) -> Result<PartialComponents<Client, FullBackend, Option<LongestChain>, ImportQueue, FullPool, (Arc<Client>, Option<Telemetry>, ())>, Error> {
		let client = Arc::new(Client);
		Ok(PartialComponents {
			client: client.clone(),
			backend: Arc::new(FullBackend),
			task_manager: TaskManager,
			import_queue: ImportQueue,
			keystore_container: KeystoreContainer,
			select_chain: if instant { Some(LongestChain) } else { None },
			transaction_pool: Arc::new(FullPool::default()),
			other: (client, None, ()),
		})
	}
}
#[derive(Clone)]
pub struct NetworkService;
pub struct SystemRpcTx;
pub struct TxHandlerController;
pub struct NetworkStarter;
impl NetworkStarter {
	pub fn start_network(self) {
		with(|w| w.network_started = true)
	}
}
pub struct SyncingService;
pub struct BuildNetworkParams<'a> {
	pub config: &'a Configuration,
	pub net_config: config::FullNetworkConfiguration,
	pub client: Arc<Client>,
	pub transaction_pool: Arc<FullPool>,
	pub spawn_handle: SpawnHandle,
	pub import_queue: ImportQueue,
	pub block_announce_validator_builder: Option<()>,
	pub warp_sync_params: Option<()>,
	pub block_relay: Option<()>,
}
pub fn build_network(_: BuildNetworkParams<'_>) -> Result<(Arc<NetworkService>, SystemRpcTx, TxHandlerController, NetworkStarter, Arc<SyncingService>), Error> {
	Ok((Arc::new(NetworkService), SystemRpcTx, TxHandlerController, NetworkStarter, Arc::new(SyncingService)))
}
pub struct OffchainWorkerOptions<F> {
	pub runtime_api_provider: Arc<Client>,
	pub is_validator: bool,
	pub keystore: Option<Arc<Keystore>>,
	pub offchain_db: Option<OffchainDb>,
	pub transaction_pool: Option<OffchainTransactionPoolFactory>,
	pub network_provider: Arc<NetworkService>,
	pub enable_http_requests: bool,
	pub custom_extensions: F,
}
pub struct OffchainWorkers(bool);
impl OffchainWorkers {
	pub fn new<F: Fn(Hash) -> Vec<()>>(o: OffchainWorkerOptions<F>) -> Self {
		OffchainWorkers(o.offchain_db.is_some() && o.enable_http_requests)
	}
	pub fn run(self, _: Arc<Client>, _: SpawnHandle) -> BoxFuture<'static, ()> {
		async move {
			with(|w| w.offchain_runs += self.0 as u32);
			futures::future::pending::<()>().await
		}
		.boxed()
	}
}
#[derive(Clone, Copy)]
pub struct DenyUnsafe;
pub mod rpc {
	use super::*;
	pub struct FullDeps<C, P> {
		pub client: Arc<C>,
		pub pool: Arc<P>,
		pub deny_unsafe: DenyUnsafe,
		pub command_sink: Option<mpsc::Sender<crate::EngineCommand<Hash>>>,
	}
	pub struct Module {
		pub sink: Option<mpsc::Sender<crate::EngineCommand<Hash>>>,
		pub offchain: bool,
	}
	pub fn create_full(d: FullDeps<Client, FullPool>, db: Option<OffchainDb>) -> Result<Module, Error> {
		Ok(Module { sink: d.command_sink, offchain: db.is_some() })
	}
}
pub struct SpawnTasksParams<'a> {
	pub rpc_builder: Box<dyn Fn(DenyUnsafe, ()) -> Result<rpc::Module, Error>>,
	pub client: Arc<Client>,
	pub transaction_pool: Arc<FullPool>,
	pub task_manager: &'a mut TaskManager,
	pub config: Configuration,
	pub keystore: Arc<Keystore>,
	pub backend: Arc<FullBackend>,
	pub network: Arc<NetworkService>,
	pub sync_service: Arc<SyncingService>,
	pub system_rpc_tx: SystemRpcTx,
	pub tx_handler_controller: TxHandlerController,
	pub telemetry: Option<&'a mut Telemetry>,
}
pub fn spawn_tasks(p: SpawnTasksParams<'_>) -> Result<(), Error> {
	let m = (p.rpc_builder)(DenyUnsafe, ())?;
	// the builder is called for every new connection
	let again = (p.rpc_builder)(DenyUnsafe, ())?;
	drop(again);
	with(|w| w.rpc = Some(m));
	Ok(())
}

use futures::channel::{mpsc, oneshot};
use std::{
	collections::BTreeMap,
	future::Future,
	marker::PhantomData,
	pin::Pin,
	sync::{Arc, Mutex},
	time::Duration,
};
pub type Hash = u64;
pub type Tx = u32;
#[derive(Clone, Debug, PartialEq)]
pub struct Sealed {
	pub number: u64,
	pub hash: Hash,
	pub parent: Hash,
	pub txs: Vec<Tx>,
	pub finalized: bool,
}
/// what happened, and when (milliseconds since the start)
#[derive(Clone, Debug, PartialEq)]
pub enum Event {
	NewPartial { instant: bool },
	Network { started: bool },
	OffchainWorkers { validator: bool, keystore: bool, database: bool, pool: bool, http: bool },
	OffchainRuns,
	Tasks { rpc: bool },
	Authors { essential: bool, blocking: bool, name: String },
	AuthorsEnded,
	Imported { tx: Tx },
	/// what was ready is not any more
	Dropped,
	/// given by the monitor, and answered
	Asked { id: u64 },
	Answered { id: u64, sealed: Option<Result<Sealed, Error>>, finalized: Option<Result<(), Error>>, lost: bool },
	Attempt { n: u64, create_empty: bool, finalize: bool, parent: Option<Hash>, by: Option<u64>, ready: usize },
	Timestamp,
	Done { n: u64, block: Option<Sealed>, why: Option<Error> },
	Finalize { hash: Hash, by: Option<u64>, justification: Option<([u8; 4], Vec<u8>)>, ok: bool },
}
#[derive(Clone, Debug, PartialEq)]
pub enum Error {
	EmptyTransactionPool,
	BlockNotFound,
	Consensus(ConsensusError),
	Other(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum ConsensusError {
	Proposing,
	Importing,
}
impl From<ConsensusError> for Error {
	fn from(e: ConsensusError) -> Self {
		Error::Consensus(e)
	}
}
/// faults and delays, in the order in which they are used up
#[derive(Clone, Debug, Default)]
pub struct Script {
	/// how long a block takes to author, in milliseconds
	pub takes: Vec<u64>,
	/// whether authoring fails
	pub fails: Vec<u8>,
	/// how many transactions a block holds
	pub room: usize,
	pub setup: u8,
}
#[derive(Default)]
pub struct Chain {
	pub log: Vec<(u64, Event)>,
	pub blocks: BTreeMap<Hash, Sealed>,
	pub best: Hash,
	pub ready: Vec<Tx>,
	pub script: Script,
	pub attempts: u64,
	pub by: u64,
	listeners: Vec<mpsc::UnboundedSender<Hash>>,
}
pub struct World {
	start: tokio::time::Instant,
	pub chain: Mutex<Chain>,
}
impl World {
	/// inside of a runtime
	pub fn new(script: Script) -> Arc<Self> {
		let mut c = Chain { script, ..Default::default() };
		c.blocks.insert(0, Sealed { number: 0, hash: 0, parent: 0, txs: vec![], finalized: true });
		Arc::new(World { start: tokio::time::Instant::now(), chain: Mutex::new(c) })
	}
	pub fn now(&self) -> u64 {
		self.start.elapsed().as_millis() as u64
	}
	pub fn tell(&self, e: Event) {
		let at = self.now();
		self.chain.lock().unwrap().log.push((at, e))
	}
	/// a transaction reaches the pool
	pub fn submit(&self, tx: Tx) {
		let at = self.now();
		let mut c = self.chain.lock().unwrap();
		c.ready.push(tx);
		c.log.push((at, Event::Imported { tx }));
		c.listeners.retain(|l| l.unbounded_send(tx as Hash).is_ok());
	}
	/// one that was ready is not any more
	pub fn drop_ready(&self) {
		self.chain.lock().unwrap().ready.clear();
		self.tell(Event::Dropped)
	}
}

// ---- the node's parts ----
#[derive(Clone)]
pub struct Registry;
#[derive(Clone, Debug, PartialEq)]
pub enum Role {
	Full,
	Authority,
}
impl Role {
	pub fn is_authority(&self) -> bool {
		matches!(self, Role::Authority)
	}
}
pub struct NetworkConfiguration;
#[derive(Clone)]
pub struct OffchainWorkerConfig {
	pub enabled: bool,
	pub indexing_enabled: bool,
}
pub struct Configuration {
	pub world: Arc<World>,
	pub network: NetworkConfiguration,
	pub offchain_worker: OffchainWorkerConfig,
	pub role: Role,
}
impl Configuration {
	pub fn prometheus_registry(&self) -> Option<&Registry> {
		None
	}
}
pub struct FullNetworkConfiguration;
impl FullNetworkConfiguration {
	pub fn new(_: &NetworkConfiguration) -> Self {
		Self
	}
}
pub struct TaskManager {
	world: Arc<World>,
	pub tasks: Arc<Mutex<Vec<tokio::task::JoinHandle<()>>>>,
}
#[derive(Clone)]
pub struct SpawnHandle {
	world: Arc<World>,
	tasks: Arc<Mutex<Vec<tokio::task::JoinHandle<()>>>>,
	essential: bool,
}
pub type SpawnEssentialTaskHandle = SpawnHandle;
impl TaskManager {
	pub fn spawn_handle(&self) -> SpawnHandle {
		SpawnHandle { world: self.world.clone(), tasks: self.tasks.clone(), essential: false }
	}
	pub fn spawn_essential_handle(&self) -> SpawnHandle {
		SpawnHandle { essential: true, ..self.spawn_handle() }
	}
	/// as when the node is stopped
	pub fn stop(self) {
		for t in self.tasks.lock().unwrap().drain(..) {
			t.abort()
		}
	}
}
impl SpawnHandle {
	fn start(&self, name: &'static str, group: Option<&'static str>, blocking: bool, f: impl Future<Output = ()> + Send + 'static) {
		let (world, authors) = (self.world.clone(), group == Some("block-authoring"));
		if authors {
			world.tell(Event::Authors { essential: self.essential, blocking, name: name.into() })
		}
		let t = tokio::spawn(async move {
			f.await;
			if authors {
				world.tell(Event::AuthorsEnded)
			}
		});
		self.tasks.lock().unwrap().push(t)
	}
	pub fn spawn(&self, name: &'static str, group: impl Into<Option<&'static str>>, f: impl Future<Output = ()> + Send + 'static) {
		self.start(name, group.into(), false, f)
	}
	pub fn spawn_blocking(&self, name: &'static str, group: impl Into<Option<&'static str>>, f: impl Future<Output = ()> + Send + 'static) {
		self.start(name, group.into(), true, f)
	}
}
#[derive(Clone)]
pub struct Keystore;
pub struct KeystoreContainer;
impl KeystoreContainer {
	pub fn keystore(&self) -> Arc<Keystore> {
		Arc::new(Keystore)
	}
}
#[derive(Clone)]
pub struct OffchainStorage;
pub struct Backend;
impl Backend {
	pub fn offchain_storage(&self) -> Option<OffchainStorage> {
		Some(OffchainStorage)
	}
}
pub struct Client(pub Arc<World>);
pub struct ImportQueue;
pub struct TelemetryHandle;
pub struct Telemetry;
impl Telemetry {
	pub fn handle(&self) -> TelemetryHandle {
		TelemetryHandle
	}
}
pub struct PartialComponents<C, B, S, I, T, O> {
	pub client: Arc<C>,
	pub backend: Arc<B>,
	pub task_manager: TaskManager,
	pub import_queue: I,
	pub keystore_container: KeystoreContainer,
	pub select_chain: S,
	pub transaction_pool: Arc<T>,
	pub other: O,
}
pub type Parts = PartialComponents<Client, Backend, Option<LongestChain>, ImportQueue, Pool, ((), Option<Telemetry>, Option<()>)>;
fn wrong(world: &World, step: u8) -> Result<(), Error> {
	if world.chain.lock().unwrap().script.setup == step {
		return Err(Error::Other(format!("step {step}")))
	}
	Ok(())
}
pub fn new_partial(config: &Configuration, instant: bool) -> Result<Parts, Error> {
	let world = config.world.clone();
	world.tell(Event::NewPartial { instant });
	wrong(&world, 1)?;
	Ok(PartialComponents {
		client: Arc::new(Client(world.clone())),
		backend: Arc::new(Backend),
		task_manager: TaskManager { world: world.clone(), tasks: Default::default() },
		import_queue: ImportQueue,
		keystore_container: KeystoreContainer,
		select_chain: if instant { Some(LongestChain(world.clone())) } else { None },
		transaction_pool: Arc::new(Pool(Arc::new(InnerPool(world.clone())))),
		other: ((), None, None),
	})
}
#[derive(Clone)]
pub struct Network;
pub struct NetworkStarter(Arc<World>);
impl NetworkStarter {
	pub fn start_network(self) {
		self.0.tell(Event::Network { started: true })
	}
}
pub struct BuildNetworkParams<'a> {
	pub config: &'a Configuration,
	pub net_config: FullNetworkConfiguration,
	pub client: Arc<Client>,
	pub transaction_pool: Arc<Pool>,
	pub spawn_handle: SpawnHandle,
	pub import_queue: ImportQueue,
	pub block_announce_validator_builder: Option<()>,
	pub warp_sync_params: Option<()>,
	pub block_relay: Option<()>,
}
pub fn build_network(p: BuildNetworkParams) -> Result<(Arc<Network>, (), (), NetworkStarter, Arc<()>), Error> {
	p.config.world.tell(Event::Network { started: false });
	wrong(&p.config.world, 2)?;
	Ok((Arc::new(Network), (), (), NetworkStarter(p.config.world.clone()), Arc::new(())))
}
pub struct OffchainTransactionPoolFactory;
impl OffchainTransactionPoolFactory {
	pub fn new(_: Arc<Pool>) -> Self {
		Self
	}
}
pub struct OffchainWorkerOptions<CE> {
	pub runtime_api_provider: Arc<Client>,
	pub is_validator: bool,
	pub keystore: Option<Arc<Keystore>>,
	pub offchain_db: Option<OffchainStorage>,
	pub transaction_pool: Option<OffchainTransactionPoolFactory>,
	pub network_provider: Arc<Network>,
	pub enable_http_requests: bool,
	pub custom_extensions: CE,
}
pub struct OffchainWorkers(Arc<World>);
impl OffchainWorkers {
	pub fn new<CE: Fn(Hash) -> Vec<()>>(o: OffchainWorkerOptions<CE>) -> Self {
		let world = o.runtime_api_provider.0.clone();
		world.tell(Event::OffchainWorkers { validator: o.is_validator, keystore: o.keystore.is_some(), database: o.offchain_db.is_some(), pool: o.transaction_pool.is_some(), http: o.enable_http_requests });
		Self(world)
	}
	pub async fn run(self, _: Arc<Client>, _: SpawnHandle) {
		self.0.tell(Event::OffchainRuns);
		futures::future::pending::<()>().await
	}
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DenyUnsafe {
	Yes,
	No,
}
/// what the RPC is given
pub struct FullDeps {
	pub client: Arc<Client>,
	pub pool: Arc<Pool>,
	pub deny_unsafe: DenyUnsafe,
	pub command_sink: Option<mpsc::Sender<EngineCommand<Hash>>>,
}
pub struct RpcModule {
	pub deny_unsafe: DenyUnsafe,
	pub command_sink: Option<mpsc::Sender<EngineCommand<Hash>>>,
	pub offchain: bool,
}
pub fn create_full(deps: FullDeps, backend: Option<OffchainStorage>) -> Result<RpcModule, ConsensusError> {
	Ok(RpcModule { deny_unsafe: deps.deny_unsafe, command_sink: deps.command_sink, offchain: backend.is_some() })
}
pub type RpcBuilder = Box<dyn Fn(DenyUnsafe, ()) -> Result<RpcModule, Error>>;
pub struct SpawnTasksParams<'a> {
	pub rpc_builder: RpcBuilder,
	pub client: Arc<Client>,
	pub transaction_pool: Arc<Pool>,
	pub task_manager: &'a mut TaskManager,
	pub config: Configuration,
	pub keystore: Arc<Keystore>,
	pub backend: Arc<Backend>,
	pub network: Arc<Network>,
	pub sync_service: Arc<()>,
	pub system_rpc_tx: (),
	pub tx_handler_controller: (),
	pub telemetry: Option<&'a mut Telemetry>,
}
thread_local! {
	/// what the RPC of the last node is built with
	pub static RPC: std::cell::RefCell<Option<RpcBuilder>> = const { std::cell::RefCell::new(None) };
}
pub fn spawn_tasks(p: SpawnTasksParams) -> Result<(), Error> {
	p.config.world.tell(Event::Tasks { rpc: true });
	wrong(&p.config.world, 3)?;
	RPC.with(|r| *r.borrow_mut() = Some(p.rpc_builder));
	Ok(())
}

// ---- pool, chain and authoring ----
pub struct InnerPool(Arc<World>);
pub struct Pool(Arc<InnerPool>);
impl Pool {
	pub fn pool(&self) -> &Arc<InnerPool> {
		&self.0
	}
}
impl InnerPool {
	pub fn validated_pool(&self) -> &Self {
		self
	}
	pub fn import_notification_stream(&self) -> mpsc::UnboundedReceiver<Hash> {
		let (s, r) = mpsc::unbounded();
		self.0.chain.lock().unwrap().listeners.push(s);
		r
	}
}
pub trait BlockT: Sized {
	type Hash: Copy + Send + Sync + 'static + Into<u64>;
}
pub struct Block;
impl BlockT for Block {
	type Hash = Hash;
}
pub struct PoolStatus {
	pub ready: usize,
}
pub trait TransactionPool: Send + Sync {
	type Block: BlockT;
	fn ready(&self) -> Box<dyn Iterator<Item = Tx> + Send>;
	fn status(&self) -> PoolStatus;
	fn import_notification_stream(&self) -> mpsc::UnboundedReceiver<Hash>;
}
impl TransactionPool for Pool {
	type Block = Block;
	fn ready(&self) -> Box<dyn Iterator<Item = Tx> + Send> {
		Box::new(self.0 .0.chain.lock().unwrap().ready.clone().into_iter())
	}
	fn status(&self) -> PoolStatus {
		PoolStatus { ready: self.0 .0.chain.lock().unwrap().ready.len() }
	}
	fn import_notification_stream(&self) -> mpsc::UnboundedReceiver<Hash> {
		self.0.import_notification_stream()
	}
}
pub trait Encode {}
impl<T> Encode for T {}
pub trait StateBackend<B> {}
impl StateBackend<Block> for Backend {}
pub trait Finalizer<B: BlockT, CB: StateBackend<B>> {
	fn finalize_block(&self, hash: B::Hash, justification: Option<([u8; 4], Vec<u8>)>, by: Option<u64>) -> Result<(), Error>;
}
impl Finalizer<Block, Backend> for Client {
	fn finalize_block(&self, hash: Hash, justification: Option<([u8; 4], Vec<u8>)>, by: Option<u64>) -> Result<(), Error> {
		let ok = match self.0.chain.lock().unwrap().blocks.get_mut(&hash) {
			Some(b) => {
				b.finalized = true;
				true
			},
			None => false,
		};
		self.0.tell(Event::Finalize { hash, by, justification, ok });
		if ok {
			Ok(())
		} else {
			Err(Error::BlockNotFound)
		}
	}
}
pub trait ProvideRuntimeApi<B> {}
impl ProvideRuntimeApi<Block> for Client {}
pub trait HeaderBackend<B: BlockT> {
	fn header(&self, hash: B::Hash) -> Option<u64>;
}
impl HeaderBackend<Block> for Client {
	fn header(&self, hash: Hash) -> Option<u64> {
		self.0.chain.lock().unwrap().blocks.get(&hash).map(|b| b.number)
	}
}
pub trait SelectChain<B: BlockT>: Send + Sync + Clone {
	fn best_chain(&self) -> B::Hash;
}
#[derive(Clone)]
pub struct LongestChain(Arc<World>);
impl SelectChain<Block> for LongestChain {
	fn best_chain(&self) -> Hash {
		self.0.chain.lock().unwrap().best
	}
}
pub trait CreateInherentDataProviders<B: BlockT, Extra>: Send + Sync {
	fn create(&self, parent: B::Hash, extra: Extra) -> Pin<Box<dyn Future<Output = Result<(), Box<dyn std::error::Error + Send + Sync>>> + Send>>;
}
impl<B: BlockT, Extra, F, Fut, I> CreateInherentDataProviders<B, Extra> for F
where
	F: Fn(B::Hash, Extra) -> Fut + Send + Sync,
	Fut: Future<Output = Result<I, Box<dyn std::error::Error + Send + Sync>>> + Send + 'static,
{
	fn create(&self, parent: B::Hash, extra: Extra) -> Pin<Box<dyn Future<Output = Result<(), Box<dyn std::error::Error + Send + Sync>>> + Send>> {
		let f = self(parent, extra);
		Box::pin(async move { f.await.map(|_| ()) })
	}
}
thread_local! {
	pub static STAMPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
pub struct InherentDataProvider;
impl InherentDataProvider {
	pub fn from_system_time() -> Self {
		STAMPS.with(|s| s.set(s.get() + 1));
		Self
	}
}
pub trait Proposer<B> {
	type Proof;
	fn propose(self) -> Pin<Box<dyn Future<Output = Result<Vec<Tx>, ConsensusError>> + Send>>;
}
pub trait Environment<B: BlockT> {
	type Proposer: Proposer<B> + Send + 'static;
	fn init(&mut self, parent: B::Hash) -> Self::Proposer;
}
pub struct ProposerFactory(Arc<World>);
impl ProposerFactory {
	pub fn new(_: SpawnHandle, client: Arc<Client>, _: Arc<Pool>, _: Option<&Registry>, _: Option<TelemetryHandle>) -> Self {
		Self(client.0.clone())
	}
}
impl Environment<Block> for ProposerFactory {
	type Proposer = OneProposer;
	fn init(&mut self, _: Hash) -> OneProposer {
		OneProposer(self.0.clone())
	}
}
pub struct OneProposer(Arc<World>);
impl Proposer<Block> for OneProposer {
	type Proof = ();
	fn propose(self) -> Pin<Box<dyn Future<Output = Result<Vec<Tx>, ConsensusError>> + Send>> {
		let w = self.0;
		Box::pin(async move {
			let (takes, txs) = {
				let mut c = w.chain.lock().unwrap();
				let room = c.script.room.max(1);
				(c.script.takes.pop().unwrap_or(0), c.ready.iter().take(room).copied().collect::<Vec<_>>())
			};
			if takes > 0 {
				tokio::time::sleep(Duration::from_millis(takes)).await;
			}
			Ok(txs)
		})
	}
}
pub struct BlockImportParams<H> {
	pub parent: H,
	pub txs: Vec<Tx>,
	pub finalized: bool,
}
pub trait BlockImport<B: BlockT> {
	type Error;
	fn import_block(&mut self, params: BlockImportParams<B::Hash>) -> Result<Sealed, Self::Error>;
}
impl BlockImport<Block> for Arc<Client> {
	type Error = ConsensusError;
	fn import_block(&mut self, p: BlockImportParams<Hash>) -> Result<Sealed, ConsensusError> {
		let mut c = self.0.chain.lock().unwrap();
		let number = c.blocks[&p.parent].number + 1;
		let hash = c.blocks.len() as Hash;
		let b = Sealed { number, hash, parent: p.parent, txs: p.txs, finalized: p.finalized };
		c.ready.retain(|t| !b.txs.contains(t));
		if number > c.blocks[&c.best].number {
			c.best = hash
		}
		c.blocks.insert(hash, b.clone());
		Ok(b)
	}
}

// ---- sealing by hand, after the crate of that name ----
pub const MANUAL_SEAL_ENGINE_ID: [u8; 4] = *b"manl";
/// the way back to whoever gave a command
pub struct Sender<T> {
	pub id: u64,
	pub to: oneshot::Sender<Result<T, Error>>,
}
impl<T> Sender<T> {
	pub fn send(self, r: Result<T, Error>) -> Result<(), Result<T, Error>> {
		self.to.send(r)
	}
}
pub type Reply<T> = Option<Sender<T>>;
pub fn send_result<T>(sender: &mut Reply<T>, r: Result<T, Error>) {
	if let Some(s) = sender.take() {
		let _ = s.send(r);
	}
}
pub enum EngineCommand<H> {
	SealNewBlock { create_empty: bool, finalize: bool, parent_hash: Option<H>, sender: Reply<Sealed> },
	FinalizeBlock { hash: H, sender: Reply<()>, justification: Option<Vec<u8>> },
}
pub trait ConsensusDataProvider<B>: Send + Sync {
	type Proof;
}
pub struct ManualSealParams<B: BlockT, BI, E, C: ProvideRuntimeApi<B>, TP, SC, CS, CIDP, P> {
	pub block_import: BI,
	pub env: E,
	pub client: Arc<C>,
	pub pool: Arc<TP>,
	pub commands_stream: CS,
	pub select_chain: SC,
	pub consensus_data_provider: Option<Box<dyn ConsensusDataProvider<B, Proof = P>>>,
	pub create_inherent_data_providers: CIDP,
}
pub struct SealBlockParams<'a, B: BlockT, BI, SC, C: ProvideRuntimeApi<B>, E, TP, CIDP, P> {
	pub create_empty: bool,
	pub finalize: bool,
	pub parent_hash: Option<B::Hash>,
	pub sender: Reply<Sealed>,
	pub pool: Arc<TP>,
	pub client: Arc<C>,
	pub env: &'a mut E,
	pub select_chain: &'a SC,
	pub block_import: &'a mut BI,
	pub consensus_data_provider: Option<&'a dyn ConsensusDataProvider<B, Proof = P>>,
	pub create_inherent_data_providers: &'a CIDP,
}
thread_local! {
	/// the world of the node that runs, which the authoring does not carry
	pub static NOW: std::cell::RefCell<Option<Arc<World>>> = const { std::cell::RefCell::new(None) };
}
pub async fn seal_block<B, BI, SC, C, E, TP, CIDP, P>(p: SealBlockParams<'_, B, BI, SC, C, E, TP, CIDP, P>)
where
	B: BlockT,
	BI: BlockImport<B, Error = ConsensusError> + Send + Sync + 'static,
	C: HeaderBackend<B> + ProvideRuntimeApi<B> + 'static,
	E: Environment<B>,
	E::Proposer: Proposer<B, Proof = P>,
	TP: TransactionPool<Block = B>,
	SC: SelectChain<B>,
	CIDP: CreateInherentDataProviders<B, ()>,
{
	let w = NOW.with(|w| w.borrow().clone()).expect("a node runs");
	let (n, fails) = {
		let mut c = w.chain.lock().unwrap();
		c.attempts += 1;
		(c.attempts, c.script.fails.pop().unwrap_or(0))
	};
	w.tell(Event::Attempt { n, create_empty: p.create_empty, finalize: p.finalize, parent: p.parent_hash.map(Into::into), by: p.sender.as_ref().map(|s| s.id), ready: p.pool.status().ready });
	let made = async {
		if p.pool.status().ready == 0 && !p.create_empty {
			return Err(Error::EmptyTransactionPool)
		}
		let parent = match p.parent_hash {
			Some(h) => {
				p.client.header(h).ok_or(Error::BlockNotFound)?;
				h
			},
			None => p.select_chain.best_chain(),
		};
		let before = STAMPS.with(|s| s.get());
		p.create_inherent_data_providers.create(parent, ()).await.map_err(|e| Error::Other(e.to_string()))?;
		if STAMPS.with(|s| s.get()) == before + 1 {
			w.tell(Event::Timestamp)
		}
		let proposer = p.env.init(parent);
		let txs = proposer.propose().await?;
		if fails == 1 {
			return Err(ConsensusError::Proposing.into())
		}
		if txs.is_empty() && !p.create_empty {
			return Err(Error::EmptyTransactionPool)
		}
		if fails == 2 {
			return Err(ConsensusError::Importing.into())
		}
		p.block_import.import_block(BlockImportParams { parent, txs, finalized: p.finalize }).map_err(Error::from)
	}
	.await;
	w.tell(Event::Done { n, block: made.clone().ok(), why: made.clone().err() });
	if let Some(s) = p.sender {
		let _ = s.send(made);
	}
}
pub struct FinalizeBlockParams<B: BlockT, F, CB> {
	pub hash: B::Hash,
	pub sender: Reply<()>,
	pub justification: Option<([u8; 4], Vec<u8>)>,
	pub finalizer: Arc<F>,
	pub _phantom: PhantomData<(B, CB)>,
}
pub async fn finalize_block<B: BlockT, F: Finalizer<B, CB>, CB: StateBackend<B>>(p: FinalizeBlockParams<B, F, CB>) {
	let r = p.finalizer.finalize_block(p.hash, p.justification, p.sender.as_ref().map(|s| s.id));
	if let Some(s) = p.sender {
		let _ = s.send(r);
	}
}

//! The block sealing of a development node, as it is in the repository, among stand-ins for the parts of
//! the node it puts together. Everything the stand-ins are asked to do is written to a log.
#![allow(dead_code, unused_imports)]
pub mod world;
pub use world::*;
/// what the repository's file finds under the names of the node's crates
pub mod stand {
	pub mod sc_service {
		pub use crate::world::{build_network, spawn_tasks, BuildNetworkParams, Configuration, PartialComponents, Role, SpawnEssentialTaskHandle, SpawnHandle as SpawnTaskHandle, SpawnTasksParams, TaskManager};
		pub mod error {
			pub use crate::world::Error;
		}
		pub use error::Error;
	}
	pub mod sc_network {
		pub mod config {
			pub use crate::world::FullNetworkConfiguration;
		}
	}
	pub mod sc_offchain {
		pub use crate::world::{OffchainWorkerOptions, OffchainWorkers};
	}
	pub mod sc_basic_authorship {
		pub use crate::world::ProposerFactory;
	}
	pub mod sc_consensus {
		pub mod block_import {
			pub use crate::world::BlockImport;
		}
		pub use block_import::BlockImport;
	}
	pub mod sc_client_api {
		pub mod backend {
			pub use crate::world::{Finalizer, StateBackend as Backend};
		}
		pub use backend::*;
	}
	pub mod sc_consensus_manual_seal {
		pub use crate::world::{finalize_block, seal_block, send_result, EngineCommand, Error, FinalizeBlockParams, ManualSealParams, SealBlockParams, MANUAL_SEAL_ENGINE_ID};
	}
	pub mod sc_transaction_pool_api {
		pub use crate::world::{OffchainTransactionPoolFactory, PoolStatus, TransactionPool};
	}
	pub mod sp_api {
		pub use crate::world::ProvideRuntimeApi;
	}
	pub mod sp_blockchain {
		pub use crate::world::HeaderBackend;
	}
	pub mod sp_consensus {
		pub use crate::world::{ConsensusError as Error, Environment, Proposer, SelectChain};
	}
	pub mod sp_inherents {
		pub use crate::world::CreateInherentDataProviders;
	}
	pub mod sp_timestamp {
		pub use crate::world::InherentDataProvider;
	}
	pub mod sp_runtime {
		pub mod traits {
			pub use crate::world::BlockT as Block;
		}
	}
	pub mod parity_scale_codec {
		pub use crate::world::Encode;
	}
}
pub mod service {
	pub use crate::world::new_partial;
}
pub mod rpc {
	pub use crate::world::{create_full, FullDeps};
}
pub mod block_sealing {
	use crate::stand::*;
	include!("real/block_sealing.rs");
}

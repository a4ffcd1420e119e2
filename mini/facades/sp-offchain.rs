pub use mf::core_::offchain::STORAGE_PREFIX;

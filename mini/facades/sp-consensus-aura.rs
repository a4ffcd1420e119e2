//deps: sp-core
pub mod sr25519 {
	pub type AuthorityId = sp_core::sr25519::Public;
}

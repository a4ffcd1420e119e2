#[derive(Clone, Copy, Debug)]
pub enum DenyUnsafe {
	Yes,
	No,
}
pub type SubscriptionTaskExecutor = std::sync::Arc<()>;

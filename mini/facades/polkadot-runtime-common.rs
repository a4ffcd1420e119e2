//deps: frame-support
pub type BlockHashCount = frame_support::traits::ConstU32<4096>;
pub struct SlowAdjustingFeeUpdate<T>(std::marker::PhantomData<T>);


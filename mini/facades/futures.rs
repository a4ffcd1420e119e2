//ver: 0.3.30
pub mod channel {
	pub mod mpsc {
		pub struct Sender<T>(std::marker::PhantomData<T>);
		impl<T> Sender<T> {
			pub fn stand_in() -> Self {
				Sender(std::marker::PhantomData)
			}
		}
	}
}

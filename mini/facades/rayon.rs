//ver: 1.10.0
//! the parallel iterators of rayon, run in order on one thread
pub mod prelude {
	pub trait IntoParallelRefIterator<'a> {
		type Iter: Iterator;
		fn par_iter(&'a self) -> Self::Iter;
	}
	impl<'a, T: 'a> IntoParallelRefIterator<'a> for Vec<T> {
		type Iter = std::slice::Iter<'a, T>;
		fn par_iter(&'a self) -> Self::Iter {
			self.iter()
		}
	}
	pub trait IntoParallelIterator: IntoIterator + Sized {
		fn into_par_iter(self) -> Self::IntoIter {
			self.into_iter()
		}
	}
	impl<T: IntoIterator> IntoParallelIterator for T {}
	pub trait ParallelIterator {}
}

pub struct Backend<Block>(std::marker::PhantomData<Block>);

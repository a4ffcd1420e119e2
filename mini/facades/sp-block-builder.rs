pub trait BlockBuilder<Block> {}
impl<T, Block> BlockBuilder<Block> for T {}

pub trait AuxStore {}
pub trait StorageProvider<Block, B> {}

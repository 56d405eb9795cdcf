//! Stand-in: dropping the caches of the machine does nothing.
pub type ProcResult<T> = std::io::Result<T>;
pub mod sys {
    pub mod vm {
        pub enum DropCache {
            Default,
            PageCache,
            Inodes,
            All,
            Disable,
        }
        pub fn drop_caches(_: DropCache) -> crate::ProcResult<()> {
            Ok(())
        }
    }
}

//! Stand-in for zip 0.5: reads (and, for the harness, writes) stored and deflated archives.
pub mod read;
pub mod result;
pub mod write;
pub use read::ZipArchive;
pub use write::ZipWriter;

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum CompressionMethod {
    Stored,
    Deflated,
    Unsupported(u16),
}

use std::fmt;
use std::io;

pub type ZipResult<T> = Result<T, ZipError>;

#[derive(Debug)]
pub enum ZipError {
    Io(io::Error),
    InvalidArchive(&'static str),
    UnsupportedArchive(&'static str),
    FileNotFound,
}

impl fmt::Display for ZipError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            ZipError::Io(e) => write!(f, "{}", e),
            ZipError::InvalidArchive(d) => write!(f, "Invalid Zip archive: {}", d),
            ZipError::UnsupportedArchive(d) => write!(f, "Unsupported Zip archive: {}", d),
            ZipError::FileNotFound => write!(f, "Specified file not found in archive"),
        }
    }
}

impl std::error::Error for ZipError {}

impl From<io::Error> for ZipError {
    fn from(e: io::Error) -> Self {
        ZipError::Io(e)
    }
}

impl From<ZipError> for io::Error {
    fn from(e: ZipError) -> Self {
        io::Error::new(io::ErrorKind::Other, e)
    }
}

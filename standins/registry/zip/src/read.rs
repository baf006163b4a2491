use crate::result::{ZipError, ZipResult};
use crate::CompressionMethod;
use std::io::{self, Read, Seek, SeekFrom};
use std::path::{Component, Path, PathBuf};

#[derive(Debug, Clone)]
struct FileData {
    name: String,
    raw_name: Vec<u8>,
    method: CompressionMethod,
    crc32: u32,
    compressed: u64,
    size: u64,
    header_start: u64,
    external_attributes: u32,
    made_by_unix: bool,
    encrypted: bool,
}

#[derive(Debug, Clone)]
pub struct ZipArchive<R> {
    reader: R,
    files: Vec<FileData>,
    comment: Vec<u8>,
    offset: u64,
}

fn u16_at(b: &[u8], i: usize) -> u64 {
    u64::from(b[i]) | u64::from(b[i + 1]) << 8
}
fn u32_at(b: &[u8], i: usize) -> u64 {
    u16_at(b, i) | u16_at(b, i + 2) << 16
}

impl<R: Read + Seek> ZipArchive<R> {
    pub fn new(mut reader: R) -> ZipResult<ZipArchive<R>> {
        let len = reader.seek(SeekFrom::End(0))?;
        if len < 22 {
            return Err(ZipError::InvalidArchive("Invalid zip header"));
        }
        let tail_len = len.min(22 + 0xffff);
        reader.seek(SeekFrom::Start(len - tail_len))?;
        let mut tail = vec![0; tail_len as usize];
        reader.read_exact(&mut tail)?;
        let pos = (0..=tail.len() - 22)
            .rev()
            .find(|&i| &tail[i..i + 4] == b"PK\x05\x06")
            .ok_or(ZipError::InvalidArchive("Could not find central directory end"))?;
        let end = &tail[pos..];
        let disk = u16_at(end, 4);
        let cd_disk = u16_at(end, 6);
        if disk != cd_disk {
            return Err(ZipError::UnsupportedArchive("Support for multi-disk files is not implemented"));
        }
        let nb_files = u16_at(end, 10) as usize;
        let cd_size = u32_at(end, 12);
        let cd_offset = u32_at(end, 16);
        let comment_len = u16_at(end, 20) as usize;
        let comment = end.get(22..22 + comment_len).unwrap_or(&[]).to_vec();
        let end_pos = len - tail_len + pos as u64;
        let offset = end_pos
            .checked_sub(cd_size)
            .and_then(|x| x.checked_sub(cd_offset))
            .ok_or(ZipError::InvalidArchive("Invalid central directory size or offset"))?;
        reader.seek(SeekFrom::Start(cd_offset + offset))?;
        let mut files = Vec::new();
        for _ in 0..nb_files {
            let mut h = [0u8; 46];
            reader.read_exact(&mut h)?;
            if &h[0..4] != b"PK\x01\x02" {
                return Err(ZipError::InvalidArchive("Invalid Central Directory header"));
            }
            let made_by = u16_at(&h, 4);
            let flags = u16_at(&h, 8);
            let method = match u16_at(&h, 10) {
                0 => CompressionMethod::Stored,
                8 => CompressionMethod::Deflated,
                other => CompressionMethod::Unsupported(other as u16),
            };
            let mut raw_name = vec![0; u16_at(&h, 28) as usize];
            reader.read_exact(&mut raw_name)?;
            let skip = u16_at(&h, 30) + u16_at(&h, 32);
            reader.seek(SeekFrom::Current(skip as i64))?;
            files.push(FileData {
                name: String::from_utf8_lossy(&raw_name).into_owned(),
                raw_name,
                method,
                crc32: u32_at(&h, 16) as u32,
                compressed: u32_at(&h, 20),
                size: u32_at(&h, 24),
                header_start: u32_at(&h, 42) + offset,
                external_attributes: u32_at(&h, 38) as u32,
                made_by_unix: made_by >> 8 == 3,
                encrypted: flags & 1 == 1,
            });
        }
        Ok(ZipArchive { reader, files, comment, offset })
    }

    pub fn len(&self) -> usize {
        self.files.len()
    }

    pub fn is_empty(&self) -> bool {
        self.files.is_empty()
    }

    pub fn offset(&self) -> u64 {
        self.offset
    }

    pub fn comment(&self) -> &[u8] {
        &self.comment
    }

    pub fn file_names(&self) -> impl Iterator<Item = &str> {
        self.files.iter().map(|f| &*f.name)
    }

    pub fn by_name<'a>(&'a mut self, name: &str) -> ZipResult<ZipFile<'a>> {
        let index = self
            .files
            .iter()
            .rposition(|f| f.name == name)
            .ok_or(ZipError::FileNotFound)?;
        self.by_index(index)
    }

    pub fn by_index<'a>(&'a mut self, index: usize) -> ZipResult<ZipFile<'a>> {
        let data = self.files.get(index).ok_or(ZipError::FileNotFound)?.clone();
        if data.encrypted {
            return Err(ZipError::UnsupportedArchive("Password required to decrypt file"));
        }
        if let CompressionMethod::Unsupported(_) = data.method {
            return Err(ZipError::UnsupportedArchive("Compression method not supported"));
        }
        self.reader.seek(SeekFrom::Start(data.header_start))?;
        let mut h = [0u8; 30];
        self.reader.read_exact(&mut h)?;
        if &h[0..4] != b"PK\x03\x04" {
            return Err(ZipError::InvalidArchive("Invalid local file header"));
        }
        let start = data.header_start + 30 + u16_at(&h, 26) + u16_at(&h, 28);
        self.reader.seek(SeekFrom::Start(start))?;
        let limited = (&mut self.reader as &mut dyn Read).take(data.compressed);
        let inner = match data.method {
            CompressionMethod::Deflated => Inner::Deflated(flate2::read::DeflateDecoder::new(limited)),
            _ => Inner::Stored(limited),
        };
        Ok(ZipFile { data, start, inner, hasher: crc32fast::Hasher::new() })
    }

    pub fn into_inner(self) -> R {
        self.reader
    }
}

enum Inner<'a> {
    Stored(io::Take<&'a mut dyn Read>),
    Deflated(flate2::read::DeflateDecoder<io::Take<&'a mut dyn Read>>),
}

pub struct ZipFile<'a> {
    data: FileData,
    start: u64,
    inner: Inner<'a>,
    hasher: crc32fast::Hasher,
}

impl<'a> ZipFile<'a> {
    pub fn name(&self) -> &str {
        &self.data.name
    }
    pub fn name_raw(&self) -> &[u8] {
        &self.data.raw_name
    }
    /// The name with every component dropped which is not a normal one
    pub fn sanitized_name(&self) -> PathBuf {
        self.mangled_name()
    }
    pub fn mangled_name(&self) -> PathBuf {
        let no_null = self.data.name.split('\0').next().unwrap_or("");
        let name = no_null.replace('\\', "/");
        Path::new(&name)
            .components()
            .filter(|c| match c {
                Component::Normal(..) => true,
                _ => false,
            })
            .fold(PathBuf::new(), |mut path, cur| {
                path.push(cur.as_os_str());
                path
            })
    }
    pub fn enclosed_name(&self) -> Option<&Path> {
        if self.data.name.contains('\0') {
            return None;
        }
        let path = Path::new(&self.data.name);
        let mut depth = 0usize;
        for component in path.components() {
            match component {
                Component::Prefix(_) | Component::RootDir => return None,
                Component::ParentDir => depth = depth.checked_sub(1)?,
                Component::Normal(_) => depth += 1,
                Component::CurDir => (),
            }
        }
        Some(path)
    }
    pub fn compression(&self) -> CompressionMethod {
        self.data.method
    }
    pub fn size(&self) -> u64 {
        self.data.size
    }
    pub fn compressed_size(&self) -> u64 {
        self.data.compressed
    }
    pub fn crc32(&self) -> u32 {
        self.data.crc32
    }
    pub fn is_dir(&self) -> bool {
        self.name().chars().rev().next().map_or(false, |c| c == '/' || c == '\\')
    }
    pub fn is_file(&self) -> bool {
        !self.is_dir()
    }
    pub fn unix_mode(&self) -> Option<u32> {
        if self.data.made_by_unix && self.data.external_attributes != 0 {
            Some(self.data.external_attributes >> 16)
        } else {
            None
        }
    }
    pub fn data_start(&self) -> u64 {
        self.start
    }
    pub fn header_start(&self) -> u64 {
        self.data.header_start
    }
}

impl<'a> Read for ZipFile<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = match &mut self.inner {
            Inner::Stored(r) => r.read(buf)?,
            Inner::Deflated(r) => r.read(buf)?,
        };
        self.hasher.update(&buf[..n]);
        if n == 0 && !buf.is_empty() && self.hasher.clone().finalize() != self.data.crc32 {
            return Err(io::Error::new(io::ErrorKind::Other, "Invalid checksum"));
        }
        Ok(n)
    }
}

use crate::result::ZipResult;
use crate::CompressionMethod;
use std::io::{self, Seek, Write};

#[derive(Debug, Copy, Clone)]
pub struct FileOptions {
    method: CompressionMethod,
}

impl Default for FileOptions {
    fn default() -> Self {
        FileOptions { method: CompressionMethod::Deflated }
    }
}

impl FileOptions {
    pub fn compression_method(mut self, method: CompressionMethod) -> Self {
        self.method = method;
        self
    }
}

struct Entry {
    name: Vec<u8>,
    method: CompressionMethod,
    content: Vec<u8>,
}

pub struct ZipWriter<W: Write + Seek> {
    out: W,
    entries: Vec<Entry>,
}

fn p16(v: &mut Vec<u8>, x: usize) {
    v.extend_from_slice(&(x as u16).to_le_bytes())
}
fn p32(v: &mut Vec<u8>, x: usize) {
    v.extend_from_slice(&(x as u32).to_le_bytes())
}

impl<W: Write + Seek> ZipWriter<W> {
    pub fn new(out: W) -> Self {
        ZipWriter { out, entries: vec![] }
    }

    pub fn start_file<S: Into<String>>(&mut self, name: S, options: FileOptions) -> ZipResult<()> {
        self.entries.push(Entry { name: name.into().into_bytes(), method: options.method, content: vec![] });
        Ok(())
    }

    pub fn add_directory<S: Into<String>>(&mut self, name: S, _options: FileOptions) -> ZipResult<()> {
        let mut name = name.into();
        if !name.ends_with('/') && !name.ends_with('\\') {
            name.push('/');
        }
        self.start_file(name, FileOptions { method: CompressionMethod::Stored })
    }

    pub fn finish(mut self) -> ZipResult<W> {
        let mut data = vec![];
        let mut central = vec![];
        for e in &self.entries {
            let (code, body) = match e.method {
                CompressionMethod::Deflated => {
                    let mut enc = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
                    enc.write_all(&e.content)?;
                    (8, enc.finish()?)
                }
                CompressionMethod::Stored => (0, e.content.clone()),
                CompressionMethod::Unsupported(c) => (c as usize, e.content.clone()),
            };
            let crc = crc32fast::hash(&e.content) as usize;
            let start = data.len();
            let mut common = vec![];
            p16(&mut common, 20);
            p16(&mut common, 0x800);
            p16(&mut common, code);
            p32(&mut common, 0x2100_0000 >> 8);
            p32(&mut common, crc);
            p32(&mut common, body.len());
            p32(&mut common, e.content.len());
            p16(&mut common, e.name.len());
            p16(&mut common, 0);
            data.extend_from_slice(b"PK\x03\x04");
            data.extend_from_slice(&common);
            data.extend_from_slice(&e.name);
            data.extend_from_slice(&body);
            central.extend_from_slice(b"PK\x01\x02");
            p16(&mut central, 0x314);
            central.extend_from_slice(&common);
            p16(&mut central, 0);
            p16(&mut central, 0);
            p16(&mut central, 0);
            p32(&mut central, if e.name.ends_with(b"/") { 0o40755 << 16 } else { 0o100644 << 16 });
            p32(&mut central, start);
            central.extend_from_slice(&e.name);
        }
        let cd_offset = data.len();
        let mut end = b"PK\x05\x06".to_vec();
        p16(&mut end, 0);
        p16(&mut end, 0);
        p16(&mut end, self.entries.len());
        p16(&mut end, self.entries.len());
        p32(&mut end, central.len());
        p32(&mut end, cd_offset);
        p16(&mut end, 0);
        self.out.write_all(&data)?;
        self.out.write_all(&central)?;
        self.out.write_all(&end)?;
        Ok(self.out)
    }
}

impl<W: Write + Seek> Write for ZipWriter<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.entries.last_mut() {
            Some(e) => e.content.write(buf),
            None => Err(io::Error::new(io::ErrorKind::Other, "No file has been started")),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

//! Stand-in for the reading half of csv 1.x.
use std::fmt;
use std::io::{self, Read};
use std::ops::Index;

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug)]
pub enum Error {
    Io(io::Error),
    Utf8 { record: usize },
    UnequalLengths { record: usize, expected: usize, found: usize },
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Error::Io(e) => write!(f, "{}", e),
            Error::Utf8 { record } => write!(f, "CSV parse error: record {}: invalid utf-8", record),
            Error::UnequalLengths { record, expected, found } => write!(
                f,
                "CSV error: record {}: found record with {} fields, but the previous record has {} fields",
                record, found, expected
            ),
        }
    }
}

impl std::error::Error for Error {}

impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error::Io(e)
    }
}

#[derive(Debug, Copy, Clone, PartialEq)]
pub enum Trim {
    None,
    Headers,
    Fields,
    All,
}

#[derive(Debug, Clone)]
pub struct ReaderBuilder {
    delimiter: u8,
    quote: u8,
    quoting: bool,
    double_quote: bool,
    flexible: bool,
    has_headers: bool,
    trim: Trim,
    comment: Option<u8>,
    escape: Option<u8>,
}

impl Default for ReaderBuilder {
    fn default() -> Self {
        Self::new()
    }
}

impl ReaderBuilder {
    pub fn new() -> Self {
        ReaderBuilder {
            delimiter: b',',
            quote: b'"',
            quoting: true,
            double_quote: true,
            flexible: false,
            has_headers: true,
            trim: Trim::None,
            comment: None,
            escape: None,
        }
    }
    pub fn delimiter(&mut self, delimiter: u8) -> &mut Self {
        self.delimiter = delimiter;
        self
    }
    pub fn quote(&mut self, quote: u8) -> &mut Self {
        self.quote = quote;
        self
    }
    pub fn quoting(&mut self, yes: bool) -> &mut Self {
        self.quoting = yes;
        self
    }
    pub fn double_quote(&mut self, yes: bool) -> &mut Self {
        self.double_quote = yes;
        self
    }
    pub fn flexible(&mut self, yes: bool) -> &mut Self {
        self.flexible = yes;
        self
    }
    pub fn has_headers(&mut self, yes: bool) -> &mut Self {
        self.has_headers = yes;
        self
    }
    pub fn trim(&mut self, trim: Trim) -> &mut Self {
        self.trim = trim;
        self
    }
    pub fn comment(&mut self, comment: Option<u8>) -> &mut Self {
        self.comment = comment;
        self
    }
    pub fn escape(&mut self, escape: Option<u8>) -> &mut Self {
        self.escape = escape;
        self
    }
    pub fn buffer_capacity(&mut self, _capacity: usize) -> &mut Self {
        self
    }
    pub fn from_reader<R: Read>(&self, rdr: R) -> Reader<R> {
        Reader { conf: self.clone(), rdr, data: None, pos: 0, record: 0, width: None, headers: None }
    }
    pub fn from_path<P: AsRef<std::path::Path>>(&self, path: P) -> Result<Reader<std::fs::File>> {
        Ok(self.from_reader(std::fs::File::open(path)?))
    }
}

pub struct Reader<R> {
    conf: ReaderBuilder,
    rdr: R,
    data: Option<Vec<u8>>,
    pos: usize,
    record: usize,
    width: Option<usize>,
    headers: Option<StringRecord>,
}

impl<R: Read> Reader<R> {
    pub fn from_reader(rdr: R) -> Reader<R> {
        ReaderBuilder::new().from_reader(rdr)
    }

    fn next_raw(&mut self) -> Result<Option<Vec<Vec<u8>>>> {
        if self.data.is_none() {
            let mut buf = vec![];
            self.rdr.read_to_end(&mut buf)?;
            if buf.starts_with(b"\xef\xbb\xbf") {
                buf.drain(..3);
            }
            self.data = Some(buf);
        }
        let data = self.data.as_ref().unwrap();
        let conf = &self.conf;
        let is_eol = |b: u8| b == b'\n' || b == b'\r';
        loop {
            // empty lines are not records
            while self.pos < data.len() && is_eol(data[self.pos]) {
                self.pos += 1;
            }
            if self.pos >= data.len() {
                return Ok(None);
            }
            if conf.comment == Some(data[self.pos]) {
                while self.pos < data.len() && data[self.pos] != b'\n' {
                    self.pos += 1;
                }
                continue;
            }
            break;
        }
        let mut fields = vec![];
        loop {
            let mut field = vec![];
            if conf.quoting && self.pos < data.len() && data[self.pos] == conf.quote {
                self.pos += 1;
                while self.pos < data.len() {
                    let b = data[self.pos];
                    self.pos += 1;
                    if Some(b) == conf.escape && self.pos < data.len() {
                        field.push(data[self.pos]);
                        self.pos += 1;
                    } else if b == conf.quote {
                        if conf.double_quote && self.pos < data.len() && data[self.pos] == conf.quote {
                            field.push(b);
                            self.pos += 1;
                        } else {
                            break;
                        }
                    } else {
                        field.push(b);
                    }
                }
            }
            while self.pos < data.len() && data[self.pos] != conf.delimiter && !is_eol(data[self.pos]) {
                field.push(data[self.pos]);
                self.pos += 1;
            }
            fields.push(field);
            if self.pos >= data.len() {
                break;
            }
            let b = data[self.pos];
            self.pos += 1;
            if b != conf.delimiter {
                break;
            }
        }
        Ok(Some(fields))
    }

    fn next_record(&mut self) -> Result<Option<StringRecord>> {
        let raw = match self.next_raw()? {
            None => return Ok(None),
            Some(raw) => raw,
        };
        self.record += 1;
        let record = self.record;
        let width = *self.width.get_or_insert(raw.len());
        if !self.conf.flexible && width != raw.len() {
            return Err(Error::UnequalLengths { record, expected: width, found: raw.len() });
        }
        let trim = self.conf.trim == Trim::All || self.conf.trim == Trim::Fields;
        let fields = raw
            .into_iter()
            .map(|f| String::from_utf8(f).map_err(|_| Error::Utf8 { record }))
            .map(|f| f.map(|f| if trim { f.trim().to_string() } else { f }))
            .collect::<Result<Vec<_>>>()?;
        Ok(Some(StringRecord(fields)))
    }

    pub fn headers(&mut self) -> Result<&StringRecord> {
        if self.headers.is_none() {
            self.headers = Some(self.next_record()?.unwrap_or_default());
        }
        Ok(self.headers.as_ref().unwrap())
    }

    pub fn read_record(&mut self, record: &mut StringRecord) -> Result<bool> {
        if self.conf.has_headers && self.headers.is_none() {
            self.headers()?;
        }
        Ok(match self.next_record()? {
            Some(r) => {
                *record = r;
                true
            }
            None => false,
        })
    }

    pub fn records(&mut self) -> StringRecordsIter<R> {
        StringRecordsIter { rdr: self }
    }

    pub fn into_records(self) -> StringRecordsIntoIter<R> {
        StringRecordsIntoIter { rdr: self }
    }
}

pub struct StringRecordsIter<'r, R: 'r> {
    rdr: &'r mut Reader<R>,
}

impl<'r, R: Read> Iterator for StringRecordsIter<'r, R> {
    type Item = Result<StringRecord>;
    fn next(&mut self) -> Option<Self::Item> {
        let mut r = StringRecord::default();
        match self.rdr.read_record(&mut r) {
            Ok(true) => Some(Ok(r)),
            Ok(false) => None,
            Err(e) => Some(Err(e)),
        }
    }
}

pub struct StringRecordsIntoIter<R> {
    rdr: Reader<R>,
}

impl<R: Read> Iterator for StringRecordsIntoIter<R> {
    type Item = Result<StringRecord>;
    fn next(&mut self) -> Option<Self::Item> {
        self.rdr.records().next()
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct StringRecord(Vec<String>);

impl StringRecord {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn get(&self, i: usize) -> Option<&str> {
        self.0.get(i).map(|s| &**s)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> StringRecordIter {
        StringRecordIter(self.0.iter())
    }
}

impl Index<usize> for StringRecord {
    type Output = str;
    fn index(&self, i: usize) -> &str {
        self.get(i).unwrap()
    }
}

pub struct StringRecordIter<'r>(std::slice::Iter<'r, String>);

impl<'r> Iterator for StringRecordIter<'r> {
    type Item = &'r str;
    fn next(&mut self) -> Option<&'r str> {
        self.0.next().map(|s| &**s)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

impl<'r> DoubleEndedIterator for StringRecordIter<'r> {
    fn next_back(&mut self) -> Option<&'r str> {
        self.0.next_back().map(|s| &**s)
    }
}

impl<'r> ExactSizeIterator for StringRecordIter<'r> {}

impl<'r> IntoIterator for &'r StringRecord {
    type Item = &'r str;
    type IntoIter = StringRecordIter<'r>;
    fn into_iter(self) -> StringRecordIter<'r> {
        self.iter()
    }
}

//! Stand-in for crfsuite-rs 0.3.3 (a git dependency with a C library, not available offline).
//! Reads the genuine CRFsuite "lCRF" model format and implements tagging (Viterbi) and sequence
//! probability (forward algorithm) of a first order linear chain CRF.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::path::Path;

pub mod writer;

#[derive(Debug, Clone, PartialEq)]
pub enum CrfError {
    InvalidModel(String),
    InvalidArgument(String),
    Io(String),
}

impl fmt::Display for CrfError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            CrfError::InvalidModel(m) => write!(f, "Invalid model: {}", m),
            CrfError::InvalidArgument(m) => write!(f, "Invalid argument: {}", m),
            CrfError::Io(m) => write!(f, "IO error: {}", m),
        }
    }
}

impl std::error::Error for CrfError {}

pub type Result<T> = std::result::Result<T, CrfError>;
pub type Item = Vec<(String, String)>;

struct Bytes<'a>(&'a [u8]);

impl<'a> Bytes<'a> {
    fn get(&self, offset: usize, len: usize) -> Result<&'a [u8]> {
        offset
            .checked_add(len)
            .and_then(|end| self.0.get(offset..end))
            .ok_or_else(|| CrfError::InvalidModel("truncated file".to_string()))
    }
    fn u32(&self, offset: usize) -> Result<usize> {
        let b = self.get(offset, 4)?;
        Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize)
    }
    fn f64(&self, offset: usize) -> Result<f64> {
        let mut a = [0; 8];
        a.copy_from_slice(self.get(offset, 8)?);
        Ok(f64::from_le_bytes(a))
    }
    fn magic(&self, offset: usize, magic: &[u8]) -> Result<()> {
        if self.get(offset, 4)? == magic {
            Ok(())
        } else {
            Err(CrfError::InvalidModel(format!(
                "expected chunk {:?}",
                String::from_utf8_lossy(magic)
            )))
        }
    }
    /// Strings of a constant quark database, in the order of their ids
    fn cqdb(&self, offset: usize, expected: usize) -> Result<Vec<String>> {
        self.magic(offset, b"CQDB")?;
        let bwd_size = self.u32(offset + 16)?;
        let bwd_offset = self.u32(offset + 20)?;
        if bwd_size < expected {
            return Err(CrfError::InvalidModel("missing quarks".to_string()));
        }
        (0..expected)
            .map(|i| {
                let record = offset + self.u32(offset + bwd_offset + 4 * i)?;
                let ksize = self.u32(record + 4)?;
                if ksize == 0 {
                    return Err(CrfError::InvalidModel("empty quark".to_string()));
                }
                let key = self.get(record + 8, ksize - 1)?;
                String::from_utf8(key.to_vec())
                    .map_err(|_| CrfError::InvalidModel("non utf8 quark".to_string()))
            })
            .collect()
    }
}

#[derive(Debug)]
struct Model {
    labels: Vec<String>,
    state: HashMap<String, Vec<(usize, f64)>>,
    trans: Vec<Vec<f64>>,
}

impl Model {
    fn read(data: &[u8]) -> Result<Model> {
        let b = Bytes(data);
        b.magic(0, b"lCRF")?;
        b.magic(8, b"FOMC")?;
        if b.u32(4)? > data.len() {
            return Err(CrfError::InvalidModel("truncated file".to_string()));
        }
        let (num_labels, num_attrs) = (b.u32(20)?, b.u32(24)?);
        if num_labels > data.len() || num_attrs > data.len() {
            return Err(CrfError::InvalidModel("invalid header".to_string()));
        }
        let off_features = b.u32(28)?;
        let labels = b.cqdb(b.u32(32)?, num_labels)?;
        let attrs = b.cqdb(b.u32(36)?, num_attrs)?;
        let (off_labelrefs, off_attrrefs) = (b.u32(40)?, b.u32(44)?);
        b.magic(off_features, b"FEAT")?;
        let feature = |fid: usize| -> Result<(usize, f64)> {
            let o = off_features + 12 + 20 * fid;
            let dst = b.u32(o + 8)?;
            if dst >= num_labels {
                return Err(CrfError::InvalidModel("unknown label".to_string()));
            }
            Ok((dst, b.f64(o + 12)?))
        };
        let refs = |base: usize, i: usize| -> Result<Vec<(usize, f64)>> {
            let o = b.u32(base + 12 + 4 * i)?;
            let n = b.u32(o)?;
            if n > data.len() {
                return Err(CrfError::InvalidModel("invalid references".to_string()));
            }
            (0..n).map(|k| feature(b.u32(o + 4 + 4 * k)?)).collect()
        };
        b.magic(off_labelrefs, b"LFRF")?;
        b.magic(off_attrrefs, b"AFRF")?;
        let mut trans = vec![vec![0.0; num_labels]; num_labels];
        for (src, row) in trans.iter_mut().enumerate() {
            for (dst, w) in refs(off_labelrefs, src)? {
                row[dst] = w;
            }
        }
        let mut state = HashMap::new();
        for (i, attr) in attrs.into_iter().enumerate() {
            state.insert(attr, refs(off_attrrefs, i)?);
        }
        Ok(Model {
            labels,
            state,
            trans,
        })
    }

    fn scores(&self, sequence: &[Item]) -> Vec<Vec<f64>> {
        sequence
            .iter()
            .map(|item| {
                let mut scores = vec![0.0; self.labels.len()];
                for (key, value) in item {
                    if let Some(features) = self.state.get(&format!("{}:{}", key, value)) {
                        for (dst, w) in features {
                            scores[*dst] += w;
                        }
                    }
                }
                scores
            })
            .collect()
    }

    fn viterbi(&self, scores: &[Vec<f64>]) -> Vec<usize> {
        if scores.is_empty() || self.labels.is_empty() {
            return vec![];
        }
        let l = self.labels.len();
        let mut best = scores[0].clone();
        let mut back: Vec<Vec<usize>> = vec![];
        for state in &scores[1..] {
            let mut cur = vec![0.0; l];
            let mut args = vec![0; l];
            for j in 0..l {
                let mut max = f64::MIN;
                for i in 0..l {
                    let s = best[i] + self.trans[i][j];
                    if s > max {
                        max = s;
                        args[j] = i;
                    }
                }
                cur[j] = max + state[j];
            }
            best = cur;
            back.push(args);
        }
        let mut last = 0;
        for i in 0..l {
            if best[i] > best[last] {
                last = i;
            }
        }
        let mut path = vec![last];
        for args in back.iter().rev() {
            last = args[last];
            path.push(last);
        }
        path.reverse();
        path
    }

    fn path_score(&self, scores: &[Vec<f64>], path: &[usize]) -> f64 {
        let mut total = 0.0;
        for (t, y) in path.iter().enumerate() {
            total += scores[t][*y];
            if t > 0 {
                total += self.trans[path[t - 1]][*y];
            }
        }
        total
    }

    fn log_norm(&self, scores: &[Vec<f64>]) -> f64 {
        fn log_sum_exp(values: &[f64]) -> f64 {
            let max = values.iter().cloned().fold(f64::MIN, f64::max);
            max + values.iter().map(|v| (v - max).exp()).sum::<f64>().ln()
        }
        if scores.is_empty() {
            return 0.0;
        }
        let l = self.labels.len();
        let mut alpha = scores[0].clone();
        for state in &scores[1..] {
            alpha = (0..l)
                .map(|j| {
                    let terms: Vec<f64> = (0..l).map(|i| alpha[i] + self.trans[i][j]).collect();
                    log_sum_exp(&terms) + state[j]
                })
                .collect();
        }
        log_sum_exp(&alpha)
    }
}

#[derive(Debug)]
pub struct Tagger {
    model: Model,
    sequence: RefCell<Vec<Item>>,
}

impl Tagger {
    pub fn create_from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
        let data = std::fs::read(path.as_ref()).map_err(|e| CrfError::Io(e.to_string()))?;
        Self::create_from_memory(&data)
    }

    pub fn create_from_memory(data: &[u8]) -> Result<Self> {
        Ok(Tagger {
            model: Model::read(data)?,
            sequence: RefCell::new(vec![]),
        })
    }

    pub fn labels(&self) -> Result<Vec<String>> {
        Ok(self.model.labels.clone())
    }

    pub fn set(&self, sequence: &[Item]) -> Result<()> {
        *self.sequence.borrow_mut() = sequence.to_vec();
        Ok(())
    }

    pub fn viterbi(&self) -> Result<Vec<String>> {
        let scores = self.model.scores(&self.sequence.borrow());
        Ok(self
            .model
            .viterbi(&scores)
            .into_iter()
            .map(|y| self.model.labels[y].clone())
            .collect())
    }

    pub fn tag(&self, sequence: &[Item]) -> Result<Vec<String>> {
        self.set(sequence)?;
        self.viterbi()
    }

    pub fn probability(&self, tags: &[String]) -> Result<f64> {
        let sequence = self.sequence.borrow();
        if sequence.is_empty() {
            return Ok(0.0);
        }
        if tags.len() != sequence.len() {
            return Err(CrfError::InvalidArgument(format!(
                "the numbers of items and labels differ: |x| = {}, |y| = {}",
                sequence.len(),
                tags.len()
            )));
        }
        let path = tags
            .iter()
            .map(|tag| {
                self.model
                    .labels
                    .iter()
                    .position(|l| l == tag)
                    .ok_or_else(|| {
                        CrfError::InvalidArgument(format!(
                            "Failed to convert into label identifier: {}",
                            tag
                        ))
                    })
            })
            .collect::<Result<Vec<usize>>>()?;
        let scores = self.model.scores(&sequence);
        Ok((self.model.path_score(&scores, &path) - self.model.log_norm(&scores)).exp())
    }
}

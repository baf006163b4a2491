//! Writes models in the CRFsuite "lCRF" format, for generated models.

#[derive(Debug, Clone, Default)]
pub struct ModelWriter {
    pub labels: Vec<String>,
    pub attrs: Vec<String>,
    /// (attribute, label, weight)
    pub state: Vec<(usize, usize, f64)>,
    /// (source label, destination label, weight)
    pub trans: Vec<(usize, usize, f64)>,
}

fn u32le(out: &mut Vec<u8>, v: usize) {
    out.extend_from_slice(&(v as u32).to_le_bytes());
}

fn cqdb(strings: &[String]) -> Vec<u8> {
    // header (24 bytes) + 256 empty hash table references, the records, the backward links
    let mut body = vec![];
    let mut offsets = vec![];
    let base = 24 + 256 * 8;
    for (id, s) in strings.iter().enumerate() {
        offsets.push(base + body.len());
        u32le(&mut body, id);
        u32le(&mut body, s.len() + 1);
        body.extend_from_slice(s.as_bytes());
        body.push(0);
    }
    while body.len() % 4 != 0 {
        body.push(0);
    }
    let bwd_offset = base + body.len();
    let size = bwd_offset + 4 * strings.len();
    let mut out = b"CQDB".to_vec();
    u32le(&mut out, size);
    u32le(&mut out, 0);
    u32le(&mut out, 0x6244_5371);
    u32le(&mut out, strings.len());
    u32le(&mut out, bwd_offset);
    out.resize(base, 0);
    out.extend(body);
    for o in offsets {
        u32le(&mut out, o);
    }
    out
}

fn refs(magic: &[u8], base: usize, lists: &[Vec<usize>]) -> Vec<u8> {
    let mut out = magic.to_vec();
    let size = 12 + 4 * lists.len() + lists.iter().map(|l| 4 + 4 * l.len()).sum::<usize>();
    u32le(&mut out, size);
    u32le(&mut out, lists.len());
    let mut offset = base + 12 + 4 * lists.len();
    for l in lists {
        u32le(&mut out, offset);
        offset += 4 + 4 * l.len();
    }
    for l in lists {
        u32le(&mut out, l.len());
        for f in l {
            u32le(&mut out, *f);
        }
    }
    out
}

impl ModelWriter {
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut features = vec![];
        let mut label_refs = vec![vec![]; self.labels.len()];
        let mut attr_refs = vec![vec![]; self.attrs.len()];
        for (attr, label, w) in &self.state {
            attr_refs[*attr].push(features.len());
            features.push((0, *attr, *label, *w));
        }
        for (src, dst, w) in &self.trans {
            label_refs[*src].push(features.len());
            features.push((1, *src, *dst, *w));
        }
        let off_features = 48;
        let mut feat = b"FEAT".to_vec();
        u32le(&mut feat, 12 + 20 * features.len());
        u32le(&mut feat, features.len());
        for (kind, src, dst, w) in &features {
            u32le(&mut feat, *kind);
            u32le(&mut feat, *src);
            u32le(&mut feat, *dst);
            feat.extend_from_slice(&w.to_le_bytes());
        }
        let off_labels = off_features + feat.len();
        let labels = cqdb(&self.labels);
        let off_attrs = off_labels + labels.len();
        let attrs = cqdb(&self.attrs);
        let off_lrefs = off_attrs + attrs.len();
        let lrefs = refs(b"LFRF", off_lrefs, &label_refs);
        let off_arefs = off_lrefs + lrefs.len();
        let arefs = refs(b"AFRF", off_arefs, &attr_refs);
        let size = off_arefs + arefs.len();
        let mut out = b"lCRF".to_vec();
        u32le(&mut out, size);
        out.extend_from_slice(b"FOMC");
        u32le(&mut out, 100);
        u32le(&mut out, 0);
        u32le(&mut out, self.labels.len());
        u32le(&mut out, self.attrs.len());
        for o in &[off_features, off_labels, off_attrs, off_lrefs, off_arefs] {
            u32le(&mut out, *o);
        }
        out.extend(feat);
        out.extend(labels);
        out.extend(attrs);
        out.extend(lrefs);
        out.extend(arefs);
        out
    }
}

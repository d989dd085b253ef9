//! Independent TDMS encoder and strict decoder written from NI's
//! "TDMS File Format Internal Structure". Neither shares code with the library.

use crate::kinds::{is_prop, CODE_STRING, Kind, Prop};
use std::collections::BTreeMap;

// ------------------------------------------------------------ logical content

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct ObjC {
    pub props: BTreeMap<String, Prop>,
    /// Runs of samples in file order: kind and canonical bytes. A channel
    /// with one element type has at most one run.
    pub runs: Vec<(Kind, Vec<u8>)>,
    /// Number of string values (string channels are opaque to the library).
    pub strings: u64,
}

impl ObjC {
    pub fn kind(&self) -> Option<Kind> {
        self.runs.first().map(|r| r.0)
    }
    pub fn data(&self) -> &[u8] {
        self.runs.first().map(|r| &r.1[..]).unwrap_or(&[])
    }
    pub fn len(&self) -> u64 {
        self.runs.iter().map(|(k, d)| (d.len() / k.size()) as u64).sum::<u64>() + self.strings
    }
    pub fn push(&mut self, k: Kind, d: &[u8]) {
        if d.is_empty() {
            return;
        }
        match self.runs.last_mut() {
            Some((lk, v)) if *lk == k => v.extend_from_slice(d),
            _ => self.runs.push((k, d.to_vec())),
        }
    }
}

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Content {
    pub objs: BTreeMap<String, ObjC>,
}

impl Content {
    pub fn obj(&mut self, path: &str) -> &mut ObjC {
        if !self.objs.contains_key(path) {
            self.objs.insert(path.to_string(), ObjC::default());
        }
        self.objs.get_mut(path).unwrap()
    }
}

// --------------------------------------------------------------------- paths

/// Parse an object path by the format's grammar: `/` or `/'g'` or `/'g'/'c'`
/// where quotes inside names are doubled. Returns raw (still escaped) names.
pub fn parse_path(p: &str) -> Option<Vec<&str>> {
    if p == "/" {
        return Some(vec![]);
    }
    let b = p.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'/' || b.get(i + 1) != Some(&b'\'') {
            return None;
        }
        let start = i + 2;
        let mut j = start;
        loop {
            match b.get(j) {
                None => return None,
                Some(b'\'') if b.get(j + 1) == Some(&b'\'') => j += 2,
                Some(b'\'') => break,
                Some(_) => j += 1,
            }
        }
        out.push(&p[start..j]);
        i = j + 1;
    }
    if out.is_empty() || out.len() > 2 { None } else { Some(out) }
}

pub fn path_group(p: &str) -> Option<&str> {
    parse_path(p)?.first().copied()
}

pub fn is_channel_path(p: &str) -> bool {
    parse_path(p).is_some_and(|v| v.len() == 2)
}

// ------------------------------------------------------------------- encoder

#[derive(Clone, Debug, PartialEq)]
pub enum Idx {
    None,
    Match,
    Full { code: u32, n: u64, total: Option<u64> },
    /// DAQmx format changing (0x69 0x12 / 0x13) scaler index, opaque body.
    Daqmx(u32, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obj {
    pub path: String,
    pub idx: Idx,
    pub props: Vec<(String, Prop)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub be: bool,
    pub interleaved: bool,
    pub newlist: bool,
    /// `None`: no metadata flag and no metadata bytes.
    pub meta: Option<Vec<Obj>>,
    pub raw_flag: bool,
    pub daqmx_flag: bool,
    /// Already in the segment's byte order.
    pub raw: Vec<u8>,
    /// Declared raw length when it differs from `raw` (sparse files).
    pub raw_virtual: Option<u64>,
    pub version: u32,
    /// Next segment offset left as all ones (writer was killed).
    pub unfinished: bool,
}

impl Default for Seg {
    fn default() -> Self {
        Seg {
            be: false,
            interleaved: false,
            newlist: true,
            meta: None,
            raw_flag: false,
            daqmx_flag: false,
            raw: vec![],
            raw_virtual: None,
            version: 4713,
            unfinished: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SegPos {
    pub start: u64,
    pub raw: u64,
    pub end: u64,
    /// (path, first sample, count) held by this segment.
    pub holds: Vec<(String, u64, u64)>,
    /// Layout of one chunk: (path, sample size, samples).
    pub lay: Vec<(String, usize, u64)>,
    pub inter: bool,
}

impl SegPos {
    /// Byte position of the `i`-th sample of a channel within this segment.
    pub fn byte_pos(&self, path: &str, i: u64) -> u64 {
        let chunk: u64 = self.lay.iter().map(|l| l.1 as u64 * l.2).sum();
        let row: u64 = self.lay.iter().map(|l| l.1 as u64).sum();
        let mut off = 0;
        for (p, size, n) in &self.lay {
            if p == path {
                let c = i / n;
                let j = i % n;
                return self.raw + c * chunk + if self.inter { j * row + off } else { off + j * *size as u64 };
            }
            off += if self.inter { *size as u64 } else { *size as u64 * n };
        }
        panic!("harness: {path} not in segment");
    }
}

pub struct W {
    pub be: bool,
    pub o: Vec<u8>,
}
impl W {
    pub fn u32(&mut self, v: u32) {
        let b = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.o.extend_from_slice(&b);
    }
    pub fn u64(&mut self, v: u64) {
        let b = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.o.extend_from_slice(&b);
    }
    pub fn str(&mut self, s: &str) {
        self.u32(s.len() as u32);
        self.o.extend_from_slice(s.as_bytes());
    }
}

impl Seg {
    pub fn toc(&self) -> u32 {
        let mut t = 0;
        if self.meta.is_some() {
            t |= 1 << 1;
        }
        if self.newlist {
            t |= 1 << 2;
        }
        if self.raw_flag {
            t |= 1 << 3;
        }
        if self.interleaved {
            t |= 1 << 5;
        }
        if self.be {
            t |= 1 << 6;
        }
        if self.daqmx_flag {
            t |= 1 << 7;
        }
        t
    }
    pub fn meta_bytes(&self) -> Vec<u8> {
        let mut w = W { be: self.be, o: vec![] };
        if let Some(objs) = &self.meta {
            w.u32(objs.len() as u32);
            for o in objs {
                w.str(&o.path);
                match &o.idx {
                    Idx::None => w.u32(0xFFFF_FFFF),
                    Idx::Match => w.u32(0),
                    Idx::Full { code, n, total } => {
                        w.u32(if total.is_some() { 28 } else { 20 });
                        w.u32(*code);
                        w.u32(1);
                        w.u64(*n);
                        if let Some(t) = total {
                            w.u64(*t);
                        }
                    }
                    Idx::Daqmx(h, body) => {
                        w.u32(*h);
                        w.o.extend_from_slice(body);
                    }
                }
                w.u32(o.props.len() as u32);
                for (n, p) in &o.props {
                    w.str(n);
                    w.u32(p.code);
                    p.encode(self.be, &mut w.o);
                }
            }
        }
        w.o
    }
    /// Header and metadata bytes, and the declared raw length.
    pub fn head(&self) -> (Vec<u8>, u64) {
        let meta = self.meta_bytes();
        let raw_len = self.raw_virtual.unwrap_or(self.raw.len() as u64);
        let mut w = W { be: self.be, o: vec![] };
        w.o.extend_from_slice(b"TDSm");
        w.o.extend_from_slice(&self.toc().to_le_bytes());
        w.u32(self.version);
        w.u64(if self.unfinished { u64::MAX } else { meta.len() as u64 + raw_len });
        w.u64(meta.len() as u64);
        w.o.extend_from_slice(&meta);
        (w.o, raw_len)
    }
}

pub fn encode(segs: &[Seg]) -> (Vec<u8>, Vec<SegPos>) {
    let mut out = vec![];
    let mut pos = vec![];
    for s in segs {
        let start = out.len() as u64;
        let (h, _) = s.head();
        out.extend_from_slice(&h);
        let raw = out.len() as u64;
        out.extend_from_slice(&s.raw);
        pos.push(SegPos { start, raw, end: out.len() as u64, ..Default::default() });
    }
    (out, pos)
}

// ------------------------------------------------------------ strict decoder

#[derive(Default, Debug)]
pub struct Decoded {
    /// Some segment ends inside a chunk (only if mended).
    pub partial: bool,
    pub content: Content,
    pub segs: Vec<SegPos>,
    /// Segments without metadata, with inherited lists, big endian, interleaved, multi chunk.
    pub feats: [u64; 6],
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
    be: bool,
}
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() - self.p < n {
            return Err(format!("field of {n} bytes at {} runs past the metadata end {}", self.p, self.b.len()));
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u32(&mut self) -> Result<u32, String> {
        let s: [u8; 4] = self.take(4)?.try_into().unwrap();
        Ok(if self.be { u32::from_be_bytes(s) } else { u32::from_le_bytes(s) })
    }
    fn u64(&mut self) -> Result<u64, String> {
        let s: [u8; 8] = self.take(8)?.try_into().unwrap();
        Ok(if self.be { u64::from_be_bytes(s) } else { u64::from_le_bytes(s) })
    }
    fn str(&mut self) -> Result<String, String> {
        let n = self.u32()? as usize;
        let s = self.take(n)?;
        String::from_utf8(s.to_vec()).map_err(|_| format!("string at {} is not UTF-8", self.p - n))
    }
    fn prop(&mut self) -> Result<Prop, String> {
        let code = self.u32()?;
        if code == 0 {
            return Ok(Prop { code, bytes: vec![] });
        }
        if code == CODE_STRING {
            return Ok(Prop { code, bytes: self.str()?.into_bytes() });
        }
        let k = Kind::from_code(code).filter(is_prop).ok_or(format!("property type code {code:#x} is not defined"))?;
        let raw = self.take(k.size())?;
        Ok(Prop { code, bytes: if self.be { k.swap(raw) } else { raw.to_vec() } })
    }
}

#[derive(Clone, Debug)]
struct Last {
    code: u32,
    n: u64,
    total: u64,
}

/// Decode; every structural rule of the format is enforced.
pub fn decode(bytes: &[u8]) -> Result<Decoded, String> {
    decode_with(bytes, false)
}

/// Decode a file which was cut and then written to again: segments may hold
/// less raw data than whole chunks, or bytes that belong to nothing.
pub fn decode_mended(bytes: &[u8]) -> Result<Decoded, String> {
    decode_with(bytes, true)
}

fn decode_with(bytes: &[u8], mended: bool) -> Result<Decoded, String> {
    let mut d = Decoded::default();
    let mut at = 0usize;
    let mut last: BTreeMap<String, Last> = BTreeMap::new();
    let mut active: Vec<String> = vec![];
    let mut is_active: std::collections::HashSet<String> = Default::default();
    while at < bytes.len() {
        let e = |m: String| format!("segment {} at byte {at}: {m}", d.segs.len());
        if bytes.len() - at < 28 {
            if mended {
                // less than a header, which the next segment goes over
                break;
            }
            return Err(e(format!("{} bytes after the last segment", bytes.len() - at)));
        }
        if &bytes[at..at + 4] != b"TDSm" {
            return Err(e(format!("bad tag {:02x?}", &bytes[at..at + 4])));
        }
        let toc = u32::from_le_bytes(bytes[at + 4..at + 8].try_into().unwrap());
        if toc & !0b1110_1110 != 0 {
            return Err(e(format!("undefined contents flags {toc:#x}")));
        }
        let be = toc & (1 << 6) != 0;
        let mut r = R { b: &bytes[..at + 28], p: at + 8, be };
        let version = r.u32()?;
        let next = r.u64()?;
        let rawoff = r.u64()?;
        // nothing but the length means anything in a segment that only hides what a fault left
        let hidden = mended && toc & 0b1010 == 0;
        if version != 4713 && version != 4712 && !hidden {
            return Err(e(format!("version {version}")));
        }
        let avail = (bytes.len() - at - 28) as u64;
        let next = if next == u64::MAX { avail } else { next };
        if next > avail {
            return Err(e(format!("segment length {next} exceeds the {avail} bytes left in the file")));
        }
        if rawoff > next && !hidden {
            return Err(e(format!("raw data offset {rawoff} beyond segment length {next}")));
        }
        let has_meta = toc & 2 != 0;
        let has_raw = toc & 8 != 0;
        if toc & (1 << 7) != 0 {
            return Err(e("DAQmx raw data flagged".into()));
        }
        let newlist = toc & 4 != 0;
        if newlist {
            active.clear();
            is_active.clear();
        }
        if has_meta {
            let mut r = R { b: &bytes[..at + 28 + rawoff as usize], p: at + 28, be };
            let n = r.u32().map_err(&e)?;
            let mut seen = std::collections::BTreeSet::new();
            for _ in 0..n {
                let path = r.str().map_err(&e)?;
                if parse_path(&path).is_none() {
                    return Err(e(format!("object path {path:?} is not of the form / or /'g' or /'g'/'c'")));
                }
                if !seen.insert(path.clone()) {
                    return Err(e(format!("object {path} listed twice")));
                }
                let h = r.u32().map_err(&e)?;
                match h {
                    0xFFFF_FFFF => {
                        if is_active.remove(&path) {
                            active.retain(|p| *p != path);
                        }
                    }
                    0 => {
                        if !last.contains_key(&path) {
                            return Err(e(format!("{path} refers to a previous layout that does not exist")));
                        }
                        if is_active.insert(path.clone()) {
                            active.push(path.clone());
                        }
                    }
                    h => {
                        let p0 = r.p;
                        let code = r.u32().map_err(&e)?;
                        let dims = r.u32().map_err(&e)?;
                        let n = r.u64().map_err(&e)?;
                        let mut total = 0;
                        if code == CODE_STRING {
                            total = r.u64().map_err(&e)?;
                        } else if Kind::from_code(code).is_none() {
                            return Err(e(format!("channel type code {code:#x}")));
                        }
                        if dims != 1 {
                            return Err(e(format!("array dimension {dims}")));
                        }
                        // the field is the length of the index information,
                        // counted with the length field itself
                        if h as usize != r.p - p0 + 4 {
                            return Err(e(format!("raw index length {h} for {} bytes", r.p - p0 + 4)));
                        }
                        if !is_channel_path(&path) {
                            return Err(e(format!("{path} is not a channel but has data")));
                        }
                        last.insert(path.clone(), Last { code, n, total });
                        if is_active.insert(path.clone()) {
                            active.push(path.clone());
                        }
                    }
                }
                let np = r.u32().map_err(&e)?;
                let obj = d.content.obj(&path);
                for _ in 0..np {
                    let name = r.str().map_err(&e)?;
                    let v = r.prop().map_err(&e)?;
                    obj.props.insert(name, v);
                }
            }
            if r.p != at + 28 + rawoff as usize {
                return Err(e(format!("metadata is {} bytes but declared {rawoff}", r.p - at - 28)));
            }
        } else if rawoff != 0 && !hidden {
            return Err(e(format!("no metadata but raw data offset {rawoff}")));
        }
        let raw_len = next.saturating_sub(rawoff);
        let mut sp = SegPos { start: at as u64, raw: at as u64 + 28 + rawoff, end: at as u64 + 28 + next, ..Default::default() };
        if has_raw {
            if raw_len == 0 && !mended {
                return Err(e("raw data flagged but none present".into()));
            }
            let mut chunk = 0u64;
            for p in &active {
                let l = &last[p];
                chunk += match Kind::from_code(l.code) {
                    Some(k) => l.n * k.size() as u64,
                    None => l.total,
                };
            }
            if chunk == 0 && (raw_len > 0 || !mended) {
                return Err(e(format!("{raw_len} raw bytes but no channel has samples")));
            }
            let chunk = chunk.max(1);
            if raw_len % chunk != 0 {
                if !mended {
                    return Err(e(format!("{raw_len} raw bytes are not whole chunks of {chunk}")));
                }
                d.partial = true;
            }
            for p in &active {
                let l = &last[p];
                // a string channel is one piece of its total size
                sp.lay.push(match Kind::from_code(l.code) {
                    Some(k) => (p.clone(), k.size(), l.n),
                    None => (p.clone(), l.total as usize, 1),
                });
            }
            let chunks = raw_len / chunk;
            let inter = toc & (1 << 5) != 0;
            let mut starts: BTreeMap<String, u64> = BTreeMap::new();
            for p in &active {
                starts.insert(p.clone(), d.content.obj(p).len());
            }
            let mut o = (at as u64 + 28 + rawoff) as usize;
            for _ in 0..chunks {
                if inter {
                    let n = last[&active[0]].n;
                    if active.iter().any(|p| last[p].n != n || last[p].code == CODE_STRING) {
                        return Err(e("interleaved channels of different length or variable size".into()));
                    }
                    for _ in 0..n {
                        for p in &active {
                            let k = Kind::from_code(last[p].code).unwrap();
                            let s = &bytes[o..o + k.size()];
                            o += k.size();
                            let s = if be { k.swap(s) } else { s.to_vec() };
                            d.content.obj(p).push(k, &s);
                        }
                    }
                } else {
                    for p in &active {
                        let l = &last[p];
                        match Kind::from_code(l.code) {
                            Some(k) => {
                                let nb = l.n as usize * k.size();
                                let s = &bytes[o..o + nb];
                                o += nb;
                                let s = if be { k.swap(s) } else { s.to_vec() };
                                d.content.obj(p).push(k, &s);
                            }
                            None => {
                                o += l.total as usize;
                                d.content.obj(p).strings += l.n;
                            }
                        }
                    }
                }
            }
            for p in &active {
                let first = starts[p];
                let cnt = d.content.obj(p).len() - first;
                if cnt > 0 {
                    sp.holds.push((p.clone(), first, cnt));
                }
            }
            sp.inter = inter;
            if chunks > 1 {
                d.feats[4] += 1;
            }
            if inter {
                d.feats[3] += 1;
            }
        } else if raw_len != 0 && !mended {
            return Err(e(format!("{raw_len} raw bytes without the raw data flag")));
        }
        if !has_meta {
            d.feats[0] += 1;
        }
        if has_meta && !newlist {
            d.feats[1] += 1;
        }
        if be {
            d.feats[2] += 1;
        }
        d.segs.push(sp);
        at += 28 + next as usize;
    }
    Ok(d)
}

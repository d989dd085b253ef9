//! The property checks. Each case builds a workload, runs the real library
//! under a monitor and compares what was observed with an independent model.

mod chaos;
mod hostile;
mod misc;
mod read;
mod write;

use crate::cx::{Cx, Res};
use crate::disk::Shared;
use crate::rng::Rng;
use crate::spec::{Content, SegPos, decode, is_channel_path, parse_path};
use crate::view::{File, props_map};
use crate::workload::{Chan, ForeignOpts, HistOpts, build, esc, foreign, hist, hist_text};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Extra {
    pub evaluations: u64,
    pub counters: Vec<(String, u64)>,
    pub sigs: Vec<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
    pub errors: Vec<String>,
    pub note: String,
}

pub struct Check {
    pub id: &'static str,
    pub case: fn(&mut Cx, &mut Rng) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub method: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub extra: Option<fn(bool, u64) -> Result<Extra, String>>,
}

pub fn find(id: &str) -> Option<&'static Check> {
    write::CHECKS.iter().chain(read::CHECKS).chain(misc::CHECKS).chain(hostile::CHECKS).find(|c| c.id == id)
}

pub struct Base {
    pub sh: Shared,
    pub bytes: Vec<u8>,
    pub content: Content,
    pub segs: Vec<SegPos>,
    pub foreign: bool,
}

/// A file to read from: written by the library, or built by the independent
/// encoder. Either way the expected content comes from the model, and the
/// strict decoder must agree with it.
pub fn base_file(r: &mut Rng, cx: &mut Cx, ho: HistOpts, fo: &ForeignOpts, p_foreign: usize) -> Base {
    if r.below(100) >= p_foreign {
        let h = match cx.scale {
            Some(v) => crate::scale::hist(v, r, cx),
            None => hist(r, ho),
        };
        if let Ok((sh, content)) = build(&h, cx)
            && let Ok(d) = decode(&sh.bytes())
            && d.content == content
        {
            cx.note(|| hist_text(&h));
            let bytes = sh.bytes();
            cx.add("base_files_written_by_library", 1);
            return Base { sh, bytes, content, segs: d.segs, foreign: false };
        }
        // whether the writer is right is other properties' business
        cx.add("written_base_not_usable", 1);
    }
    let f = match cx.scale {
        Some(v) => crate::scale::foreign(v, r, &fo.kinds, cx),
        None => foreign(r, fo, cx),
    };
    let d = decode(&f.bytes).unwrap_or_else(|e| panic!("harness: encoder and decoder disagree: {e}"));
    assert!(d.content == f.content, "harness: encoder and decoder disagree on content");
    cx.add("base_files_foreign", 1);
    Base { sh: Shared::new(f.bytes.clone()), bytes: f.bytes, content: f.content, segs: d.segs, foreign: true }
}

/// Channels of the content that a program can address by name and write with
/// their own stored type.
pub fn writable_chans(c: &Content) -> Vec<Chan> {
    let mut v = vec![];
    for (p, o) in &c.objs {
        if let Some(parts) = parse_path(p)
            && parts.len() == 2
            && !p.replace("/'", "").replace("'", "\u{1}").contains("\u{1}\u{1}")
            && o.strings == 0
            && o.runs.len() <= 1
        {
            let (g, n) = (parts[0], parts[1]);
            if format!("/'{}'/'{}'", esc(g), esc(n)) != *p || g.contains('\'') || n.contains('\'') {
                continue;
            }
            let kind = match o.kind() {
                Some(k) if k.natural() == k => k,
                Some(_) => continue,
                None => crate::kinds::Kind::F64,
            };
            v.push(Chan { group: g.to_string(), name: n.to_string(), kind, path: p.clone() });
        }
    }
    v
}

/// Values a property may legitimately show when a file is cut or a write failed.
pub type Cands = BTreeMap<(String, String), Vec<crate::kinds::Prop>>;

/// The handle must show at least `low` and at most `high`, and only values
/// that were really written. Returns the content that is shown.
pub fn bracket(f: &mut File, low: &Content, high: &Content, cands: &Cands, cx: &mut Cx, r: &mut Rng) -> Result<Content, String> {
    let mut seen = Content::default();
    // objects: all of low, none beyond high
    let mut listed: BTreeSet<String> = BTreeSet::new();
    for (p, hi) in &high.objs {
        let lo = low.objs.get(p);
        let path = crate::view::pp(p)?;
        let Some(props) = props_map(f, &path) else {
            if lo.is_some() {
                return Err(format!("object {p} was completely written but is not in the file any more"));
            }
            continue;
        };
        listed.insert(p.clone());
        let mut o = crate::spec::ObjC::default();
        for (n, v) in &props {
            let mut ok = None;
            for c in lo.and_then(|l| l.props.get(n)).into_iter().chain(hi.props.get(n)).chain(cands.get(&(p.clone(), n.clone())).into_iter().flatten()) {
                if c.matches(v) {
                    ok = Some(c.clone());
                }
            }
            match ok {
                Some(c) => {
                    o.props.insert(n.clone(), c);
                }
                None => return Err(format!("property {n:?} of {p} shows {v:?}, which was never written there")),
            }
        }
        if let Some(l) = lo {
            for n in l.props.keys() {
                if !o.props.contains_key(n) {
                    return Err(format!("property {n:?} of {p} was completely written but is gone"));
                }
            }
        }
        if is_channel_path(p) {
            let c = crate::view::cp(p)?;
            let len = f.channel_length(&c).ok_or(format!("channel {p} is listed but has no length"))?;
            let lo_len = lo.map_or(0, |l| l.len());
            if len < lo_len {
                return Err(format!("channel {p} has {len} samples but {lo_len} were completely written"));
            }
            if len > hi.len() {
                return Err(format!("channel {p} shows {len} samples but only {} were ever written", hi.len()));
            }
            if hi.strings > 0 || hi.runs.len() > 1 {
                o.strings = if hi.strings > 0 { len } else { 0 };
            } else if len > 0 {
                let k = hi.kind().unwrap();
                let data = &hi.data()[..len as usize * k.size()];
                crate::view::read_check_kind(f, p, k, data, 0, len as usize + 2, r)?;
                o.push(k, data);
                cx.add("samples_compared", len);
            }
        }
        seen.objs.insert(p.clone(), o);
    }
    crate::view::check_listing(f, &listed)?;
    Ok(seen)
}

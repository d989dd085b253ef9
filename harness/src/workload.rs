//! Workload generators: write histories through the public API, and foreign
//! files built with the independent encoder.

use crate::cx::{Cx, Res};
use crate::disk::Shared;
use crate::kinds::{ALL, CODE_STRING, Elem, Kind, NATURAL, Prop, rand_string};
use crate::rng::Rng;
use crate::spec::{Content, Idx, Obj, Seg, SegPos, encode};
use crate::with_kind;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Seek, Write};
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsError, TdmsFile};

// --------------------------------------------------------------------- names

pub fn esc(s: &str) -> String {
    s.replace('\'', "\"")
}

pub fn rand_name(r: &mut Rng) -> String {
    match r.below(10) {
        0..=4 => r.pick(&["a", "b", "ab", "group", "ch1", "ch2", "ch10"]).to_string(),
        5 => r.pick(&["", "/", "a/b", "a/'b", "'", "''", "\"", "'a", "a'", "/'", "'/'", "a'/'b", " ", "\\", "a\0b"]).to_string(),
        6 => r.pick(&["é", "中文", "😀", "Å", "a\u{301}"]).to_string(),
        7 => rand_string(r),
        _ => format!("n{}", r.below(30)),
    }
}

/// A name that differs from `s` in one small way.
pub fn near(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let at = if cs.is_empty() { 0 } else { r.below(cs.len()) };
    match r.below(12) {
        0 => {
            for c in &mut cs {
                *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
        }
        1 if !cs.is_empty() => {
            let c = cs[at];
            cs[at] = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        }
        2 | 3 => cs.push(*r.pick(&[' ', '\t', '\n', '\0', '.', '/', '"', '0', 'x', '\u{a0}', '\u{301}'])),
        4 => cs.insert(0, *r.pick(&[' ', '\t', '/', '0', '"', '\u{FEFF}'])),
        5 => {
            cs.pop();
        }
        6 if !cs.is_empty() => {
            cs.remove(0);
        }
        7 if !cs.is_empty() => cs[at] = ((cs[at] as u32) ^ 1).try_into().unwrap_or('?'),
        8 => cs.reverse(),
        9 => cs.extend_from_within(..),
        10 => {
            // longer than a length kept in a byte, different only at the end
            let n = *r.pick(&[64usize, 255, 256]);
            cs.resize(n, 'k');
            cs.push(*r.pick(&['a', 'b']));
        }
        _ => cs.insert(at, *r.pick(&['/', ' ', '"', '\\', '_', 'é'])),
    }
    cs.into_iter().collect()
}

/// Like `near`, on an object path: one of its names is changed.
pub fn near_path(r: &mut Rng, path: &str) -> Option<String> {
    let parts = crate::spec::parse_path(path)?;
    let mut names: Vec<String> = parts.iter().map(|p| p.to_string()).collect();
    match r.below(6) {
        0 if names.len() == 2 => {
            names.pop();
        }
        1 if names.len() == 2 => names.swap(0, 1),
        2 if names.len() == 1 => names.push(names[0].clone()),
        _ if names.is_empty() => return None,
        _ => {
            let i = r.below(names.len());
            if names[i].contains('\'') {
                return None;
            }
            names[i] = esc(&near(r, &names[i]));
        }
    }
    Some(names.iter().map(|n| format!("/'{n}'")).collect())
}

#[derive(Clone, Debug)]
pub struct Chan {
    pub group: String,
    pub name: String,
    pub kind: Kind,
    pub path: String,
}

/// Distinct channels (after quote normalisation).
pub fn chan_pool(r: &mut Rng, n: usize, kinds: &[Kind], plain: bool) -> Vec<Chan> {
    let ngroups = r.range(1, 3.min(n.max(1)));
    let mut groups: Vec<String> = vec![];
    for i in 0..ngroups {
        let g = match groups.last() {
            _ if plain => format!("g{i}"),
            Some(g) if r.chance(1, 4) => near(r, g),
            _ => rand_name(r),
        };
        groups.push(g);
    }
    let mut seen = BTreeSet::new();
    let mut v: Vec<Chan> = vec![];
    while v.len() < n {
        let g = r.pick(&groups).clone();
        let c = if plain {
            format!("c{}", v.len())
        } else if n > 12 {
            format!("{}{}", rand_name(r), v.len())
        } else if !v.is_empty() && r.chance(1, 6) {
            let c = r.pick(&v).name.clone();
            near(r, &c)
        } else {
            rand_name(r)
        };
        let path = format!("/'{}'/'{}'", esc(&g), esc(&c));
        if seen.insert(path.clone()) {
            v.push(Chan { group: g, name: c, kind: *r.pick(kinds), path });
        } else if r.chance(1, 4) {
            // avoid stalling on a tiny name space
            let c = format!("x{}", v.len());
            let path = format!("/'{}'/'{}'", esc(&g), esc(&c));
            if seen.insert(path.clone()) {
                v.push(Chan { group: g, name: c, kind: *r.pick(kinds), path });
            }
        }
    }
    v
}

// ------------------------------------------------------------ write histories

#[derive(Clone, Debug)]
pub enum Bad {
    NoChannels,
    Uneven,
    Strings,
    Daqmx,
    Repeated,
}

#[derive(Clone, Debug)]
pub enum WOp {
    Write { chs: Vec<usize>, kind: Kind, n: usize, layout: DataLayout, seed: u64 },
    Props { path: PropertyPath, props: Vec<(String, Prop)> },
    Sync,
    Bad { what: Bad, chs: Vec<usize>, extra: usize },
}

#[derive(Clone, Debug)]
pub struct Session {
    pub ops: Vec<WOp>,
    pub reopen_after: bool,
}

#[derive(Clone, Debug)]
pub struct Hist {
    pub chans: Vec<Chan>,
    pub sessions: Vec<Session>,
}

#[derive(Clone, Copy)]
pub struct HistOpts {
    pub max_chans: usize,
    pub max_sessions: usize,
    pub max_ops: usize,
    pub max_n: usize,
    /// Percent of operations that write properties.
    pub props_pct: usize,
    pub bad_pct: usize,
    pub reopen_pct: usize,
    pub plain_names: bool,
    pub one_kind: bool,
}

impl Default for HistOpts {
    fn default() -> Self {
        HistOpts {
            max_chans: 6,
            max_sessions: 4,
            max_ops: 6,
            max_n: 40,
            props_pct: 20,
            bad_pct: 0,
            reopen_pct: 30,
            plain_names: false,
            one_kind: false,
        }
    }
}

pub fn rand_props(r: &mut Rng, foreign: bool, max: usize) -> Vec<(String, Prop)> {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        5..=6 => r.range(1, 4),
        _ => r.below(max + 1),
    };
    let mut seen = BTreeSet::new();
    let mut v: Vec<(String, Prop)> = vec![];
    for _ in 0..n {
        let name = match (r.below(8), v.last()) {
            (0, _) => rand_string(r),
            (1, Some((p, _))) => near(r, p),
            _ => r.pick(&["p", "q", "unit", "name", "", "é", "wf_increment"]).to_string(),
        };
        if seen.insert(name.clone()) {
            v.push((name, Prop::random(r, foreign)));
        }
    }
    v
}

pub fn hist(r: &mut Rng, o: HistOpts) -> Hist {
    hist_with(r, o, vec![])
}

/// A history whose channels include `extra` (channels that already exist).
pub fn hist_with(r: &mut Rng, o: HistOpts, extra: Vec<Chan>) -> Hist {
    let nk = if o.one_kind { 1 } else { *r.pick(&[1, 1, 2, 3, 15]) };
    let mut kinds = NATURAL.to_vec();
    r.shuffle(&mut kinds);
    kinds.truncate(nk);
    let mut nch = r.range(1, o.max_chans);
    if o.max_chans > 4 && r.chance(1, 60) {
        nch = *r.pick(&[16, 33, 255, 256, 257, 300]);
    }
    let mut chans = chan_pool(r, nch, &kinds, o.plain_names);
    chans.retain(|c| !extra.iter().any(|e| e.path == c.path));
    chans.extend(extra);
    let nsess = r.range(1, o.max_sessions);
    // a "favourite" write is repeated often, since repetition is what makes
    // the library elide metadata
    let mut fav: Option<(Vec<usize>, Kind, usize, DataLayout)> = None;
    let mut sessions = vec![];
    for _ in 0..nsess {
        let nops = r.below(o.max_ops + 1);
        let mut ops = vec![];
        for _ in 0..nops {
            let x = r.below(100);
            if x < o.props_pct {
                let path = match r.below(8) {
                    0 => PropertyPath::file(),
                    1 | 2 => PropertyPath::group(&r.pick(&chans).group),
                    3 => PropertyPath::group(&rand_name(r)),
                    _ => {
                        let c = r.pick(&chans);
                        PropertyPath::channel(&c.group, &c.name)
                    }
                };
                ops.push(WOp::Props { path, props: rand_props(r, false, 8) });
            } else if x < o.props_pct + 6 {
                ops.push(WOp::Sync);
            } else if x < o.props_pct + 6 + o.bad_pct {
                let what = match r.below(5) {
                    0 => Bad::NoChannels,
                    2 => Bad::Daqmx,
                    3 => Bad::Repeated,
                    1 => Bad::Uneven,
                    _ => Bad::Strings,
                };
                let k = r.range(1, chans.len().min(4));
                let mut chs: Vec<usize> = (0..chans.len()).collect();
                r.shuffle(&mut chs);
                chs.truncate(k);
                ops.push(WOp::Bad { what, chs, extra: r.below(1 << 12) });
            } else {
                let choice = r.below(10);
                let (mut chs, kind, mut n, mut layout) = match (&fav, choice) {
                    (Some(f), 0..=5) => f.clone(),
                    _ => {
                        let kind = r.pick(&chans).kind;
                        let mut chs: Vec<usize> = (0..chans.len()).filter(|i| chans[*i].kind == kind).collect();
                        if r.coin() {
                            r.shuffle(&mut chs);
                        }
                        let keep = if r.coin() { chs.len() } else { r.range(1, chs.len()) };
                        chs.truncate(keep);
                        let n = sample_count(r, o.max_n, kind.size() * chs.len());
                        let layout = if r.coin() { DataLayout::Interleaved } else { DataLayout::Contigious };
                        (chs, kind, n, layout)
                    }
                };
                if fav.is_some() && choice <= 5 {
                    // perturb one aspect of the favourite now and then
                    match r.below(9) {
                        0 => n = sample_count(r, o.max_n, kind.size() * chs.len()),
                        1 if chs.len() > 1 => {
                            chs.pop();
                        }
                        2 if chs.len() > 1 => {
                            let i = r.below(chs.len());
                            chs.remove(i);
                        }
                        3 => {
                            if let Some(c) = (0..chans.len()).find(|i| chans[*i].kind == kind && !chs.contains(i)) {
                                let at = r.below(chs.len() + 1);
                                chs.insert(at, c);
                            }
                        }
                        4 if chs.len() > 1 => {
                            let a = r.below(chs.len());
                            let b = r.below(chs.len());
                            chs.swap(a, b);
                        }
                        5 => layout = if r.coin() { DataLayout::Interleaved } else { DataLayout::Contigious },
                        _ => {}
                    }
                }
                if fav.is_none() || r.chance(1, 5) {
                    fav = Some((chs.clone(), kind, n, layout));
                }
                ops.push(WOp::Write { chs, kind, n, layout, seed: r.next() });
            }
        }
        sessions.push(Session { ops, reopen_after: r.below(100) < o.reopen_pct });
    }
    Hist { chans, sessions }
}

fn sample_count(r: &mut Rng, max: usize, row: usize) -> usize {
    match r.below(24) {
        0 | 1 => 0,
        2..=12 => r.range(1, 4),
        13..=20 => r.range(1, max.max(1)),
        21 => *r.pick(&[255usize, 256, 257]) / row.max(1) + 1,
        // around the 8 KiB buffers of the standard readers and writers
        22 if max >= 32 => (8192 / row.max(1)) + r.below(3) - (8192 / row.max(1)).min(1),
        23 if max >= 32 && r.chance(1, 4) => 20_000 / row.max(1) + r.below(9),
        _ => 1,
    }
}

pub fn values(kind: Kind, n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    kind.samples(&mut r, n, false)
}

/// Canonical samples, per channel, of a write op.
pub fn op_samples(chs: &[usize], kind: Kind, n: usize, seed: u64) -> Vec<Vec<u8>> {
    (0..chs.len()).map(|i| values(kind, n, seed ^ (i as u64).wrapping_mul(0x1234_5678_9ABC_DEF1))).collect()
}

/// Lay per-channel samples out as the flat value slice the API expects.
pub fn flat<T: Elem>(per: &[Vec<u8>], n: usize, layout: DataLayout) -> Vec<T> {
    let sz = T::KIND.size();
    let mut v = Vec::with_capacity(n * per.len());
    match layout {
        DataLayout::Contigious => {
            for d in per {
                v.extend(d.chunks(sz).map(T::from_canon));
            }
        }
        DataLayout::Interleaved => {
            for i in 0..n {
                for d in per {
                    v.push(T::from_canon(&d[i * sz..(i + 1) * sz]));
                }
            }
        }
    }
    v
}

/// Run one operation on a writer; the caller updates the model on success.
macro_rules! run_op {
    ($w:expr, $h:expr, $op:expr) => {{
        let w = $w;
        match $op {
            WOp::Write { chs, kind, n, layout, seed } => {
                let per = op_samples(chs, *kind, *n, *seed);
                let paths: Vec<ChannelPath> = chs.iter().map(|i| ChannelPath::new(&$h.chans[*i].group, &$h.chans[*i].name)).collect();
                with_kind!(*kind, T => {
                    let vals = flat::<T>(&per, *n, *layout);
                    if seed & 1 == 0 {
                        let refs: Vec<&ChannelPath> = paths.iter().collect();
                        w.write_channels(&refs, &vals, *layout)
                    } else {
                        w.write_channels(&paths, &vals, *layout)
                    }
                })
            }
            WOp::Props { path, props } => {
                let v: Vec<(&str, PropertyValue)> = props.iter().map(|(n, p)| (n.as_str(), p.to_lib())).collect();
                w.write_properties(path, &v)
            }
            WOp::Sync => w.sync(),
            WOp::Bad { what, chs, extra } => {
                let paths: Vec<ChannelPath> = chs.iter().map(|i| ChannelPath::new(&$h.chans[*i].group, &$h.chans[*i].name)).collect();
                match what {
                    Bad::NoChannels => {
                        let v = vec![1u32; *extra % 5];
                        let none: Vec<ChannelPath> = vec![];
                        w.write_channels(&none, &v, DataLayout::Contigious)
                    }
                    Bad::Uneven => {
                        let layout = if extra & 1 == 0 { DataLayout::Interleaved } else { DataLayout::Contigious };
                        if paths.len() == 1 {
                            let none: Vec<ChannelPath> = vec![];
                            w.write_channels(&none, &[1.0f64], layout)
                        } else {
                            // some whole rows (or none) and part of another
                            let left = 1 + (extra >> 4) % (paths.len() - 1);
                            let n = paths.len() * (extra >> 1 & 7).saturating_sub(3) + left;
                            with_kind!($h.chans[chs[0]].kind, T => {
                                let vals = flat::<T>(&[values(T::KIND, n, *extra as u64)], n, layout);
                                w.write_channels(&paths, &vals, layout)
                            })
                        }
                    }
                    Bad::Daqmx => {
                        let v: Vec<crate::kinds::Daqmx> = (0..paths.len() * (extra % 5 + 1)).map(|_| crate::kinds::Daqmx).collect();
                        w.write_channels(&paths, &v, if extra & 32 == 0 { DataLayout::Contigious } else { DataLayout::Interleaved })
                    }
                    Bad::Repeated => {
                        // one channel once more, at any place, with any number of whole rows
                        let mut paths = paths;
                        let again = paths[extra % paths.len()].clone();
                        paths.insert((extra >> 3) % (paths.len() + 1), again);
                        let layout = if extra & 1 == 0 { DataLayout::Interleaved } else { DataLayout::Contigious };
                        let n = (extra >> 6) % 6;
                        with_kind!($h.chans[chs[0]].kind, T => {
                            let per: Vec<_> = (0..paths.len()).map(|i| values(T::KIND, n, (*extra + i) as u64)).collect();
                            let vals = flat::<T>(&per, n, layout);
                            w.write_channels(&paths, &vals, layout)
                        })
                    }
                    Bad::Strings => {
                        let v = vec![String::from("text"); paths.len() * (extra % 5 + 1)];
                        w.write_channels(&paths, &v, DataLayout::Contigious)
                    }
                }
            }
        }
    }};
}

/// Apply the effect of a successful operation to the expected content.
pub fn model_op(h: &Hist, op: &WOp, content: &mut Content) {
    match op {
        WOp::Write { chs, kind, n, seed, .. } => {
            let per = op_samples(chs, *kind, *n, *seed);
            for (i, d) in chs.iter().zip(per.iter()) {
                content.obj(&h.chans[*i].path).push(*kind, d);
            }
        }
        WOp::Props { path, props } => {
            let o = content.obj(path.path());
            for (n, p) in props {
                o.props.insert(n.clone(), p.clone());
            }
        }
        _ => {}
    }
}

/// Run a session on the handle; every non-`Bad` operation must succeed and
/// every `Bad` one must be refused.
pub fn run_session<F: Read + Write + Seek>(f: &mut TdmsFile<F>, h: &Hist, s: &Session, content: &mut Content, cx: &mut Cx) -> Res {
    let mut w = match f.writer() {
        Ok(w) => w,
        Err(e) => return Err(format!("writer() failed: {e:?}")),
    };
    for op in &s.ops {
        cx.note(|| format!("  {}", op_text(h, op)));
        let res: Result<(), TdmsError> = run_op!(&mut w, h, op);
        match (op, res) {
            (WOp::Bad { .. }, Ok(())) => return Err(format!("a write that must be refused succeeded: {op:?}")),
            (WOp::Bad { .. }, Err(_)) => cx.add("refused_writes", 1),
            (_, Ok(())) => {
                model_op(h, op, content);
                op_feat(cx, op);
            }
            (_, Err(e)) => return Err(format!("{} failed: {e:?}", op_text(h, op))),
        }
    }
    Ok(())
}

/// Run operations, returning each result (fault-injection checks).
pub fn run_ops_results<F: Read + Write + Seek>(f: &mut TdmsFile<F>, h: &Hist, ops: &[WOp]) -> Vec<Result<(), TdmsError>> {
    let mut out = vec![];
    match f.writer() {
        Ok(mut w) => {
            for op in ops {
                out.push(run_op!(&mut w, h, op));
            }
        }
        Err(e) => out.push(Err(e)),
    }
    out
}

/// Run operations, reporting each result; the callback says whether to go on.
/// An error means the writer could not be acquired.
pub fn run_ops_cb<F: Read + Write + Seek>(f: &mut TdmsFile<F>, h: &Hist, ops: &[WOp], cb: &mut dyn FnMut(usize, &WOp, &Result<(), TdmsError>) -> bool) -> Result<(), TdmsError> {
    let mut w = f.writer()?;
    for (i, op) in ops.iter().enumerate() {
        let r: Result<(), TdmsError> = run_op!(&mut w, h, op);
        if !cb(i, op, &r) {
            break;
        }
    }
    Ok(())
}

/// As above, stopping at the first error.
pub fn run_ops_until_err<F: Read + Write + Seek>(f: &mut TdmsFile<F>, h: &Hist, ops: &[WOp]) -> (usize, Option<TdmsError>) {
    match f.writer() {
        Ok(mut w) => {
            for (i, op) in ops.iter().enumerate() {
                let r: Result<(), TdmsError> = run_op!(&mut w, h, op);
                if let Err(e) = r {
                    return (i, Some(e));
                }
            }
            (ops.len(), None)
        }
        Err(e) => (0, Some(e)),
    }
}

pub fn op_feat(cx: &mut Cx, op: &WOp) {
    match op {
        WOp::Write { chs, kind, n, layout, .. } => {
            cx.add("channel_writes", 1);
            cx.add("samples_written", (chs.len() * n) as u64);
            cx.feat_n(1);
            for c in chs {
                cx.feat_n(*c as u64);
            }
            cx.feat_n(*kind as u64 * 2 + (*layout == DataLayout::Interleaved) as u64);
            cx.feat_n(*n as u64);
            cx.nontrivial |= *n > 0;
        }
        WOp::Props { path, props } => {
            cx.add("property_writes", props.len() as u64);
            cx.feat(path.path().as_bytes());
            for (n, p) in props {
                cx.feat(n.as_bytes());
                cx.feat_n(p.code as u64);
                cx.feat(&p.bytes);
            }
            cx.nontrivial |= !props.is_empty();
        }
        WOp::Sync => cx.feat_n(3),
        WOp::Bad { .. } => cx.feat_n(4),
    }
}

pub fn op_text(h: &Hist, op: &WOp) -> String {
    match op {
        WOp::Write { chs, kind, n, layout, .. } => format!(
            "write_channels({:?}, {} samples each of {:?}, {})",
            chs.iter().take(8).map(|i| &h.chans[*i].path).collect::<Vec<_>>(),
            n,
            kind,
            layout
        ),
        WOp::Props { path, props } => format!("write_properties({path}, {:?})", props.iter().map(|(n, p)| (n, p.code)).take(8).collect::<Vec<_>>()),
        WOp::Sync => "sync()".into(),
        WOp::Bad { what, chs, extra } => format!("refused write {what:?} ({} channels, {extra})", chs.len()),
    }
}

pub fn hist_text(h: &Hist) -> String {
    let mut s = String::new();
    for (i, se) in h.sessions.iter().enumerate() {
        s.push_str(&format!("[writer {i}: "));
        s.push_str(&se.ops.iter().map(|o| op_text(h, o)).collect::<Vec<_>>().join("; "));
        s.push_str(if se.reopen_after { "; drop; reopen] " } else { "; drop] " });
    }
    s.chars().take(1200).collect()
}

/// Build a file by running a whole history without checks in between.
pub fn build(h: &Hist, cx: &mut Cx) -> Result<(Shared, Content), String> {
    let sh = Shared::new(vec![]);
    let mut content = Content::default();
    let mut f = crate::view::open(&sh).map_err(|e| format!("opening an empty stream failed: {e:?}"))?;
    for s in &h.sessions {
        run_session(&mut f, h, s, &mut content, cx)?;
        if s.reopen_after {
            f = crate::view::open(&sh).map_err(|e| format!("reopening a written file failed: {e:?}"))?;
        }
    }
    Ok((sh, content))
}

// --------------------------------------------------------------- foreign files

#[derive(Clone)]
pub struct ForeignOpts {
    pub max_chans: usize,
    pub max_segs: usize,
    pub max_n: usize,
    pub max_chunks: usize,
    pub kinds: Vec<Kind>,
    pub be: Option<bool>,
    pub interleaved: Option<bool>,
    pub strings: bool,
    /// Contiguous segments whose channels have different lengths.
    pub unequal: bool,
    pub props: bool,
    pub unfinished: bool,
    pub plain_names: bool,
}

impl Default for ForeignOpts {
    fn default() -> Self {
        ForeignOpts {
            max_chans: 6,
            max_segs: 8,
            max_n: 12,
            max_chunks: 4,
            kinds: ALL.to_vec(),
            be: None,
            interleaved: None,
            strings: true,
            unequal: false,
            props: true,
            unfinished: true,
            plain_names: false,
        }
    }
}

pub struct Foreign {
    pub segs: Vec<Seg>,
    pub content: Content,
    pub pos: Vec<SegPos>,
    pub bytes: Vec<u8>,
}

struct FCh {
    path: String,
    kind: Option<Kind>, // None: strings
}

fn foreign_name(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        // names escaped the way NI's own writers do
        return r.pick(&["it''s", "''", "a''/''b", "''''", "x''", "''/"]).to_string();
    }
    esc(&rand_name(r))
}

pub fn foreign(r: &mut Rng, o: &ForeignOpts, cx: &mut Cx) -> Foreign {
    let mut kinds = o.kinds.clone();
    r.shuffle(&mut kinds);
    kinds.truncate(*r.pick(&[1, 2, 3, 19]));
    let mut nch = r.range(1, o.max_chans);
    if o.max_chans > 4 && r.chance(1, 80) {
        nch = *r.pick(&[17, 255, 256, 257]);
    }
    let mut groups: Vec<String> = vec![];
    for i in 0..r.range(1, 3) {
        let g = match groups.last() {
            _ if o.plain_names => format!("g{i}"),
            Some(g) if !g.contains('\'') && r.chance(1, 4) => esc(&near(r, g)),
            _ => foreign_name(r),
        };
        groups.push(g);
    }
    let mut chans: Vec<FCh> = vec![];
    let mut seen = BTreeSet::new();
    while chans.len() < nch {
        let g = r.pick(&groups).clone();
        let c = if o.plain_names || r.chance(1, 6) || nch > 12 { format!("c{}", chans.len()) } else { foreign_name(r) };
        let mut path = format!("/'{g}'/'{c}'");
        if !o.plain_names && nch <= 12 && !chans.is_empty() && r.chance(1, 8) {
            let old = r.pick(&chans).path.clone();
            if let Some(p) = near_path(r, &old)
                && crate::spec::is_channel_path(&p)
            {
                path = p;
            }
        }
        if seen.insert(path.clone()) {
            let kind = if o.strings && r.chance(1, 25) { None } else { Some(*r.pick(&kinds)) };
            chans.push(FCh { path, kind });
        }
    }
    let be_mode = o.be.or(match r.below(4) {
        0 => Some(true),
        1 => None,
        _ => Some(false),
    });
    let mut last: BTreeMap<usize, (u64, u64)> = BTreeMap::new(); // chan -> (n, total)
    let mut active: Vec<usize> = vec![];
    let mut banned: BTreeSet<usize> = BTreeSet::new();
    let mut segs: Vec<Seg> = vec![];
    let mut content = Content::default();
    let mut holds: Vec<Vec<(String, u64, u64)>> = vec![];
    let nsegs = r.range(1, o.max_segs);

    for _ in 0..nsegs {
        let mut s = Seg { be: be_mode.unwrap_or_else(|| r.coin()), version: if r.chance(1, 6) { 4712 } else { 4713 }, ..Default::default() };
        let mut inter = o.interleaved.unwrap_or_else(|| r.coin());
        let mode = if !active.is_empty() {
            r.below(12)
        } else if !segs.is_empty() && r.chance(1, 3) {
            // the list is empty and stays or is added to
            9
        } else {
            r.below(5)
        };
        let mut objs: Vec<Obj> = vec![];
        let extra_none = |r: &mut Rng, objs: &mut Vec<Obj>, active: &[usize]| {
            // root, groups and data-less channels
            if !o.props {
                return;
            }
            for _ in 0..r.below(3) {
                let path = match r.below(5) {
                    0 => "/".to_string(),
                    1 | 2 => format!("/'{}'", r.pick(&groups)),
                    3 => format!("/'{}'", if o.plain_names { "other".to_string() } else { foreign_name(r) }),
                    _ => {
                        let i = r.below(chans.len());
                        if active.contains(&i) {
                            continue;
                        }
                        chans[i].path.clone()
                    }
                };
                if objs.iter().any(|x| x.path == path) {
                    continue;
                }
                let at = r.below(objs.len() + 1);
                objs.insert(at, Obj { path, idx: Idx::None, props: rand_props(r, true, 5) });
            }
        };
        let mk_n = |r: &mut Rng| -> u64 {
            match r.below(12) {
                0 => 1,
                1..=8 => r.range(1, o.max_n.max(1)) as u64,
                9 => 2,
                10 if o.max_n >= 12 => r.range(200, 300) as u64,
                11 if o.max_n >= 12 && r.chance(1, 6) => r.range(1000, 1100) as u64,
                _ => 3,
            }
        };
        let full = |r: &mut Rng, i: usize, n: u64, last: &mut BTreeMap<usize, (u64, u64)>, allow_match: bool| -> Idx {
            let total = if chans[i].kind.is_none() { Some(r.range(0, 30) as u64 + 4 * n) } else { None };
            if allow_match && let Some((ln, _)) = last.get(&i) && *ln == n && r.coin() {
                return Idx::Match;
            }
            last.insert(i, (n, total.unwrap_or(0)));
            match chans[i].kind {
                Some(k) => Idx::Full { code: k.code(), n, total: None },
                None => Idx::Full { code: CODE_STRING, n, total },
            }
        };
        match mode {
            // new object list
            0..=4 => {
                s.newlist = true;
                active.clear();
                banned.clear();
                let mut pick: Vec<usize> = (0..chans.len()).collect();
                r.shuffle(&mut pick);
                let keep = if r.chance(1, 3) { pick.len() } else { r.range(1, pick.len()) };
                pick.truncate(keep);
                // prefer a length that some channel already had, to allow "same as before"
                let mut n = mk_n(r);
                if let Some((ln, _)) = pick.iter().find_map(|i| last.get(i))
                    && r.coin()
                {
                    n = *ln;
                }
                if n == 0 {
                    n = 1;
                }
                let unequal = o.unequal && !inter && r.coin();
                for i in pick {
                    let ni = if unequal && r.coin() { if r.chance(1, 5) { 0 } else { mk_n(r) } } else { n };
                    let idx = full(r, i, ni, &mut last, true);
                    objs.push(Obj { path: chans[i].path.clone(), idx, props: if o.props { rand_props(r, true, 4) } else { vec![] } });
                    active.push(i);
                }
                extra_none(r, &mut objs, &active);
            }
            // same list, no metadata
            5 | 6 => {
                s.newlist = false;
            }
            // same list, metadata without new objects: property updates, "same as before"
            7 => {
                s.newlist = false;
                for &i in &active.clone() {
                    if r.chance(1, 3) {
                        objs.push(Obj { path: chans[i].path.clone(), idx: Idx::Match, props: if o.props { rand_props(r, true, 4) } else { vec![] } });
                    }
                }
                extra_none(r, &mut objs, &active);
            }
            // same list, new lengths
            8 => {
                s.newlist = false;
                let n = mk_n(r);
                let some = o.unequal && !inter && r.coin();
                for &i in &active.clone() {
                    if some && r.coin() {
                        continue;
                    }
                    let ni = if some && r.coin() { if r.coin() { 0 } else { mk_n(r) } } else { n };
                    let idx = full(r, i, ni, &mut last, false);
                    objs.push(Obj { path: chans[i].path.clone(), idx, props: vec![] });
                }
                extra_none(r, &mut objs, &active);
            }
            // channels join
            9 => {
                s.newlist = false;
                let n = match active.first() {
                    Some(a) => last[a].0,
                    None => mk_n(r),
                };
                for i in 0..chans.len() {
                    if !active.contains(&i) && !banned.contains(&i) && r.coin() {
                        let ni = if o.unequal && !inter && r.chance(1, 3) { r.below(n as usize + 3) as u64 } else { n };
                        let idx = full(r, i, ni, &mut last, true);
                        objs.push(Obj { path: chans[i].path.clone(), idx, props: if o.props { rand_props(r, true, 3) } else { vec![] } });
                        active.push(i);
                    }
                }
                extra_none(r, &mut objs, &active);
            }
            // a channel has no data in this segment
            10 => {
                s.newlist = false;
                let x = r.below(active.len());
                let i = active.remove(x);
                banned.insert(i);
                objs.push(Obj { path: chans[i].path.clone(), idx: Idx::None, props: rand_props(r, true, 3) });
            }
            // properties only, keeping or clearing the list
            _ => {
                s.newlist = r.chance(1, 3);
                if s.newlist {
                    active.clear();
                    banned.clear();
                }
                extra_none(r, &mut objs, &active);
            }
        }
        if mode != 5 && mode != 6 {
            s.meta = Some(objs);
        }
        // channels of different lengths or strings cannot be interleaved
        let uniform = active.iter().all(|i| last[i].0 == last[&active[0]].0 && chans[*i].kind.is_some());
        if !uniform {
            inter = false;
        }
        s.interleaved = inter;
        let has_str = active.iter().any(|i| chans[*i].kind.is_none());
        let chunk_bytes: u64 = active.iter().map(|i| chans[*i].kind.map_or(last[i].1, |k| last[i].0 * k.size() as u64)).sum();
        let want_raw = chunk_bytes > 0 && (mode < 10 || r.chance(2, 3)) && !(mode < 10 && r.chance(1, 8));
        let mut h = vec![];
        if want_raw {
            s.raw_flag = true;
            let chunks = if has_str { 1 } else if r.chance(1, 3) { r.range(1, o.max_chunks.max(1)) } else { 1 };
            let chunks = if chunk_bytes > 4000 { 1 } else { chunks };
            let firsts: Vec<u64> = active.iter().map(|i| content.obj(&chans[*i].path).len()).collect();
            for _ in 0..chunks {
                let per: Vec<Vec<u8>> = active
                    .iter()
                    .map(|i| match chans[*i].kind {
                        Some(k) => k.samples(r, last[i].0 as usize, true),
                        None => r.bytes(last[i].1 as usize),
                    })
                    .collect();
                for (i, d) in active.iter().zip(per.iter()) {
                    match chans[*i].kind {
                        Some(k) => content.obj(&chans[*i].path).push(k, d),
                        None => content.obj(&chans[*i].path).strings += last[i].0,
                    }
                }
                if inter {
                    let n = last[&active[0]].0 as usize;
                    for j in 0..n {
                        for (i, d) in active.iter().zip(per.iter()) {
                            let k = chans[*i].kind.unwrap();
                            let x = &d[j * k.size()..(j + 1) * k.size()];
                            if s.be {
                                s.raw.extend_from_slice(&k.swap(x));
                            } else {
                                s.raw.extend_from_slice(x);
                            }
                        }
                    }
                } else {
                    for (i, d) in active.iter().zip(per.iter()) {
                        match chans[*i].kind {
                            Some(k) if s.be => s.raw.extend_from_slice(&k.swap(d)),
                            _ => s.raw.extend_from_slice(d),
                        }
                    }
                }
            }
            for (i, f) in active.iter().zip(firsts) {
                let cnt = content.obj(&chans[*i].path).len() - f;
                if cnt > 0 {
                    h.push((chans[*i].path.clone(), f, cnt));
                }
            }
        }
        if let Some(objs) = &s.meta {
            for ob in objs {
                let e = content.obj(&ob.path);
                for (n, p) in &ob.props {
                    e.props.insert(n.clone(), p.clone());
                }
            }
        }
        cx.feat_n(mode as u64 * 64 + s.toc() as u64);
        cx.feat_n(chunk_bytes);
        for i in &active {
            cx.feat_n(chans[*i].kind.map_or(99, |k| k as u64) << 32 | last[i].0);
        }
        cx.feat_n(s.raw.len() as u64);
        cx.nontrivial |= want_raw;
        holds.push(h);
        segs.push(s);
    }
    if o.unfinished && r.chance(1, 10) {
        // a killed writer leaves the last length as all ones
        segs.last_mut().unwrap().unfinished = true;
        cx.feat_n(0xFF);
    }
    let (bytes, mut pos) = encode(&segs);
    for (p, h) in pos.iter_mut().zip(holds) {
        p.holds = h;
    }
    cx.add("foreign_segments", segs.len() as u64);
    cx.add("foreign_be_segments", segs.iter().filter(|s| s.be).count() as u64);
    cx.add("foreign_interleaved_segments", segs.iter().filter(|s| s.interleaved && s.raw_flag).count() as u64);
    cx.add("foreign_no_metadata_segments", segs.iter().filter(|s| s.meta.is_none()).count() as u64);
    cx.note(|| seg_text(&segs));
    Foreign { segs, content, pos, bytes }
}

pub fn seg_text(segs: &[Seg]) -> String {
    let mut t = String::new();
    for s in segs {
        t.push_str(&format!(
            "[{}{}{} raw={}{} ",
            if s.be { "BE " } else { "" },
            if s.interleaved { "inter " } else { "" },
            if s.newlist { "newlist" } else { "" },
            s.raw.len(),
            if s.unfinished { " unfinished" } else { "" }
        ));
        match &s.meta {
            None => t.push_str("no-meta"),
            Some(m) => {
                for o in m.iter().take(6) {
                    t.push_str(&match &o.idx {
                        Idx::None => format!("{}:none ", o.path),
                        Idx::Match => format!("{}:same ", o.path),
                        Idx::Full { code, n, .. } => format!("{}:{code:#x}x{n} ", o.path),
                        Idx::Daqmx(..) => format!("{}:daqmx ", o.path),
                    });
                }
            }
        }
        t.push_str("] ");
    }
    t.chars().take(1500).collect()
}

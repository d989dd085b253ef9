//! C04 C05 C06 C10 C15 C17 C19 C20 C21 C22: reading.

use super::{Base, Check, base_file};
use crate::alloc;
use crate::cx::{Cx, Res};
use crate::disk::{Ev, Faults, OpKind, Shared, Store, pattern};
use crate::kinds::{ALL, Elem, Kind, NATURAL, Picky};
use crate::rng::{Rng, hash_bytes};
use crate::spec::{Content, Idx, Obj, Seg, SegPos, decode, encode, is_channel_path, path_group};
use crate::view::{Depth, File, check_buf, cp, full_check, open, pp, read_check, read_check_kind, sentinel};
use crate::with_kind;
use crate::workload::*;
use std::collections::BTreeMap;
use std::io::ErrorKind;
use tedium::{ChannelPath, DataLayout, TdmsError};

pub static CHECKS: &[Check] = &[
    Check {
        id: "C04",
        case: c04,
        quick: 350000,
        thorough: 12000000,
        method: "files from an independent encoder are compared with the content the format assigns",
        rule: "distinct segment structures (flags, object lists, index forms, chunking, raw lengths)",
        assumptions: &["The encoder follows NI's published description; it is checked against an independent decoder on every file."],
        extra: None,
    },
    Check {
        id: "C05",
        case: c05,
        quick: 350000,
        thorough: 14000000,
        method: "boundary-directed and random slices compared with the model",
        rule: "distinct (file structure, set of slices read) with at least one non-empty slice",
        assumptions: &["The caller reads with a type that the stored type supports."],
        extra: None,
    },
    Check {
        id: "C06",
        case: c06,
        quick: 350000,
        thorough: 14000000,
        method: "every multi-channel read is compared with the single reads it must equal",
        rule: "distinct (file structure, channel list, buffer lengths, start)",
        assumptions: &["As many buffers as channels are passed."],
        extra: None,
    },
    Check {
        id: "C10",
        case: c10,
        quick: 350000,
        thorough: 12000000,
        method: "all stored and requested type pairs over files in every layout, including channels that change type",
        rule: "distinct (file structure, stored type, requested type, slice) sets",
        assumptions: &["A boolean may be read from unsigned bytes and a type with unit as the type without (documented)."],
        extra: None,
    },
    Check {
        id: "C15",
        case: c15,
        quick: 250000,
        thorough: 9000000,
        method: "fault injection at every kind of read-side stream operation and position",
        rule: "distinct (file, call, fault kind, position, transfer pattern)",
        assumptions: &["A stream error is any error kind except Interrupted, which readers retry by convention."],
        extra: None,
    },
    Check {
        id: "C17",
        case: c17,
        quick: 200000,
        thorough: 6000000,
        method: "the stream's access log is checked against the format's layout of the file",
        rule: "distinct (file structure, read requests) whose access log was judged",
        assumptions: &["Read-ahead of a buffered reader that starts in allowed bytes is allowed."],
        extra: None,
    },
    Check {
        id: "C19",
        case: c19,
        quick: 200000,
        thorough: 6000000,
        method: "metamorphic comparison of two random encodings of the same content",
        rule: "distinct pairs of encodings",
        assumptions: &["Each channel has one element type."],
        extra: None,
    },
    Check {
        id: "C20",
        case: c20,
        quick: 200000,
        thorough: 4000000,
        method: "reported length compared with the samples delivered, on valid, cut and damaged files",
        rule: "distinct files that load and have at least one channel",
        assumptions: &["Channels that no element type can read (strings, mixed types) are not judged."],
        extra: None,
    },
    Check {
        id: "C21",
        case: c21,
        quick: 120000,
        thorough: 2000000,
        method: "every call on a used handle is compared with the same call on a fresh one",
        rule: "distinct call sequences",
        assumptions: &["The file is not modified between the calls."],
        extra: None,
    },
    Check {
        id: "C22",
        case: c22,
        quick: 200000,
        thorough: 5000000,
        method: "virtual files of up to 2^62 bytes, sampled at boundaries, with the work per call monitored",
        rule: "distinct (structure, sizes, positions) with offsets or sample numbers beyond 2^32",
        assumptions: &["Streams follow the operating system's limit of 2^63-1 bytes for offsets."],
        extra: Some(crate::sup::long_calls),
    },
];

fn fopts(r: &mut Rng) -> ForeignOpts {
    ForeignOpts {
        unequal: r.chance(1, 2),
        max_segs: *r.pick(&[2, 4, 8, 14]),
        max_chans: *r.pick(&[1, 2, 4, 6]),
        max_n: *r.pick(&[3, 12, 12]),
        ..Default::default()
    }
}

fn hopts(r: &mut Rng) -> HistOpts {
    HistOpts { max_n: *r.pick(&[5, 40, 100]), max_sessions: 3, max_chans: *r.pick(&[1, 3, 6]), plain_names: r.coin(), ..Default::default() }
}

fn opened(b: &Base) -> Result<File, String> {
    open(&b.sh).map_err(|e| format!("a valid file does not open: {e:?}"))
}

// ----------------------------------------------------------------------- C04

fn c04(cx: &mut Cx, r: &mut Rng) -> Res {
    if r.chance(1, 12) && cx.scale.is_none() {
        return daqmx(cx, r);
    }
    let fo = ForeignOpts { strings: r.chance(1, 2), ..fopts(r) };
    let b = base_file(r, cx, HistOpts::default(), &fo, 100);
    let mut f = opened(&b)?;
    full_check(&mut f, &b.content, Depth { full: true, partial: 1 }, cx, r)?;
    for (p, o) in &b.content.objs {
        if o.strings > 0 {
            refuse_all(&mut f, p, r).map_err(|e| format!("string channel: {e}"))?;
            cx.add("string_channels_refused", 1);
        }
    }
    Ok(())
}

/// Reads of every type must fail and leave the buffer alone.
fn refuse_all(f: &mut File, path: &str, r: &mut Rng) -> Res {
    let c = cp(path)?;
    for k in NATURAL {
        with_kind!(k, T => {
            let s = sentinel::<T>(r);
            let mut out = vec![s.clone(); 3];
            if f.read_channel(&c, &mut out).is_ok() {
                return Err(format!("{path} can be read as {k:?}"));
            }
            if out.iter().any(|v| !v.same(&s)) {
                return Err(format!("a refused read of {path} as {k:?} changed the buffer"));
            }
        });
    }
    let mut out = vec![String::from("s"); 2];
    if f.read_channel(&c, &mut out).is_ok() {
        return Err(format!("{path} can be read as String"));
    }
    if out != ["s", "s"] {
        return Err(format!("a refused read of {path} as String changed the buffer"));
    }
    Ok(())
}

fn daqmx(cx: &mut Cx, r: &mut Rng) -> Res {
    let fo = ForeignOpts { max_segs: 3, unfinished: false, ..fopts(r) };
    let fo2 = foreign(r, &fo, cx);
    let mut segs = fo2.segs;
    let be = r.coin();
    let mut body = vec![];
    {
        // raw data type, dimension, values, one format changing scaler, one width
        let mut w = crate::spec::W { be, o: vec![] };
        w.u32(0xFFFF_FFFF);
        w.u32(1);
        w.u64(4);
        w.u32(1);
        for v in [3u32, 0, 0, 0, 0] {
            w.u32(v);
        }
        w.u32(1);
        w.u32(2);
        body.extend_from_slice(&w.o);
    }
    let header = if r.coin() { 0x0000_1269 } else { 0x0000_1369 };
    segs.push(Seg {
        be,
        newlist: true,
        daqmx_flag: true,
        raw_flag: true,
        interleaved: true,
        meta: Some(vec![Obj { path: "/'daq'/'mx'".into(), idx: Idx::Daqmx(header, body), props: vec![] }]),
        raw: r.bytes(8),
        ..Default::default()
    });
    let (bytes, _) = encode(&segs);
    cx.add("daqmx_files", 1);
    cx.nontrivial = true;
    cx.feat_n(header as u64 + be as u64);
    match open(&Shared::new(bytes)) {
        Err(_) => Ok(()),
        Ok(mut f) => refuse_all(&mut f, "/'daq'/'mx'", r).map_err(|e| format!("DAQmx channel: {e}")),
    }
}

// ----------------------------------------------------------------------- C05

/// Interesting sample positions of a channel: segment and chunk boundaries.
fn marks(b: &Base, path: &str) -> Vec<u64> {
    let mut v = vec![0, b.content.objs[path].len()];
    for s in &b.segs {
        for (p, first, cnt) in &s.holds {
            if p == path {
                v.push(*first);
                v.push(first + cnt);
                if let Some(l) = s.lay.iter().find(|l| l.0 == *path)
                    && l.2 > 0
                {
                    for c in 1..(cnt / l.2).min(4) {
                        v.push(first + c * l.2);
                    }
                }
            }
        }
    }
    v
}

fn near(r: &mut Rng, m: &[u64]) -> u64 {
    let x = *r.pick(m);
    match r.below(4) {
        0 => x.saturating_sub(1),
        1 => x + 1,
        _ => x,
    }
}

fn pick_start(r: &mut Rng, m: &[u64], total: u64) -> u64 {
    match r.below(16) {
        0 => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) + 1, u32::MAX as u64]),
        1..=4 => r.below64(total + 2),
        5 => 0,
        _ => near(r, m),
    }
}

fn pick_len(r: &mut Rng, m: &[u64], start: u64, total: u64) -> usize {
    let rest = total.saturating_sub(start);
    let v = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => rest + r.below64(4),
        3 | 4 => near(r, m).saturating_sub(start),
        _ => r.below64(rest + 2),
    };
    v.min(rest + 3) as usize
}

fn c05(cx: &mut Cx, r: &mut Rng) -> Res {
    let (ho, fo) = (hopts(r), fopts(r));
    let b = base_file(r, cx, ho, &fo, 60);
    let mut f = opened(&b)?;
    for (p, o) in &b.content.objs {
        if !is_channel_path(p) || o.strings > 0 || o.runs.len() > 1 {
            continue;
        }
        let Some(k) = o.kind() else { continue };
        let m = marks(&b, p);
        for _ in 0..r.range(3, 9) {
            let start = pick_start(r, &m, o.len());
            let len = pick_len(r, &m, start, o.len());
            read_check_kind(&mut f, p, k, o.data(), start, len, r)?;
            if k == Kind::U8 && r.chance(1, 4) {
                read_check::<bool>(&mut f, p, k, o.data(), start, len, r)?;
            }
            cx.feat_n(start ^ (len as u64) << 40);
            cx.add("slices_compared", 1);
            cx.add("samples_compared", (len as u64).min(o.len().saturating_sub(start)));
            if o.len() > start && len > 0 {
                cx.nontrivial = true;
            }
        }
    }
    Ok(())
}

// ----------------------------------------------------------------------- C06

fn c06(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut ho = hopts(r);
    ho.one_kind = r.chance(3, 4);
    let mut fo = fopts(r);
    fo.max_chans = *r.pick(&[2, 3, 5, 8]);
    fo.strings = false;
    if r.chance(3, 4) {
        fo.kinds = vec![*r.pick(&ALL)];
    }
    let b = base_file(r, cx, ho, &fo, 60);
    let mut f = opened(&b)?;
    // channels by the type they are read as
    let mut by: BTreeMap<Kind, Vec<String>> = BTreeMap::new();
    let mut empty = vec![];
    for (p, o) in &b.content.objs {
        if is_channel_path(p) && o.strings == 0 && o.runs.len() <= 1 {
            match o.kind() {
                Some(k) => by.entry(k.natural()).or_default().push(p.clone()),
                None => empty.push(p.clone()),
            }
        }
    }
    for (k, paths) in &by {
        for _ in 0..3 {
            with_kind!(*k, T => multi::<T>(&mut f, &b, paths, &empty, cx, r))?;
        }
    }
    Ok(())
}

fn multi<T: Elem>(f: &mut File, b: &Base, paths: &[String], empty: &[String], cx: &mut Cx, r: &mut Rng) -> Res {
    let mut list: Vec<&String> = vec![];
    let n = match r.below(6) {
        0 => 1,
        1 => paths.len(),
        2 => r.range(1, paths.len() * 2),
        _ => r.range(1, paths.len()),
    };
    if r.chance(1, 3) {
        list.extend(paths.iter().take(n));
    } else if r.chance(2, 3) {
        let mut v: Vec<&String> = paths.iter().collect();
        r.shuffle(&mut v);
        v.truncate(n);
        list = v;
    } else {
        for _ in 0..n {
            list.push(r.pick(paths));
        }
    }
    if !empty.is_empty() && r.chance(1, 4) {
        let at = r.below(list.len() + 1);
        list.insert(at, r.pick(empty));
    }
    let mut m: Vec<u64> = vec![];
    for p in &list {
        m.extend(marks(b, p));
    }
    let longest = list.iter().map(|p| b.content.objs[*p].len()).max().unwrap_or(0);
    let start = if r.chance(1, 4) { 0 } else { pick_start(r, &m, longest) };
    let same = if r.coin() { Some(pick_len(r, &m, start, longest)) } else { None };
    let sents: Vec<T> = list.iter().map(|_| sentinel::<T>(r)).collect();
    let mut bufs: Vec<Vec<T>> = list.iter().zip(&sents).map(|(_, s)| vec![s.clone(); same.unwrap_or_else(|| pick_len(r, &m, start, longest))]).collect();
    let chans: Vec<ChannelPath> = list.iter().map(|p| cp(p)).collect::<Result<_, _>>()?;
    let what = format!("read_channels_from({:?}, start {start}, buffer lengths {:?})", list, bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
    let mut slices: Vec<&mut [T]> = bufs.iter_mut().map(|v| &mut v[..]).collect();
    let res = if start == 0 && r.coin() { f.read_channels(&chans, &mut slices) } else { f.read_channels_from(&chans, start, &mut slices) };
    if let Err(e) = res {
        return Err(format!("{what} failed: {e:?}"));
    }
    for (i, p) in list.iter().enumerate() {
        let o = &b.content.objs[*p];
        let size = o.kind().map_or(1, |k| k.size());
        check_buf(&bufs[i], &sents[i], o.data(), size, start, &|| format!("{what}, buffer {i}"))?;
        cx.feat(p.as_bytes());
        cx.feat_n(bufs[i].len() as u64);
        cx.add("samples_compared", (bufs[i].len() as u64).min(o.len().saturating_sub(start)));
    }
    cx.feat_n(start);
    cx.add("multi_reads", 1);
    if list.len() > 1 {
        cx.nontrivial = true;
        cx.add("multi_reads_of_several_channels", 1);
    }
    let mut uniq = list.clone();
    uniq.sort();
    uniq.dedup();
    if uniq.len() < list.len() {
        cx.add("multi_reads_with_repeats", 1);
    }
    Ok(())
}

// ----------------------------------------------------------------------- C10

/// A file whose channels may change type from segment to segment.
fn mixed_file(r: &mut Rng, cx: &mut Cx) -> Base {
    let nch = r.range(1, 4);
    let kinds: Vec<Kind> = (0..r.range(1, 3)).map(|_| *r.pick(&ALL)).collect();
    let mut segs = vec![];
    let mut content = Content::default();
    for _ in 0..r.range(1, 5) {
        let mut s = Seg { be: r.coin(), interleaved: r.coin(), newlist: r.coin(), ..Default::default() };
        let n = r.range(1, 6);
        let ks: Vec<Kind> = (0..nch).map(|_| *r.pick(&kinds)).collect();
        let per: Vec<Vec<u8>> = ks.iter().map(|k| k.samples(r, n, true)).collect();
        let mut objs = vec![];
        for (i, k) in ks.iter().enumerate() {
            objs.push(Obj { path: format!("/'m'/'c{i}'"), idx: Idx::Full { code: k.code(), n: n as u64, total: None }, props: rand_props(r, true, 2) });
        }
        s.meta = Some(objs);
        s.raw_flag = true;
        let mut put = |k: Kind, d: &[u8]| {
            let v = if s.be { k.swap(d) } else { d.to_vec() };
            s.raw.extend_from_slice(&v);
        };
        if s.interleaved {
            for j in 0..n {
                for (k, d) in ks.iter().zip(&per) {
                    put(*k, &d[j * k.size()..(j + 1) * k.size()]);
                }
            }
        } else {
            for (k, d) in ks.iter().zip(&per) {
                put(*k, d);
            }
        }
        for (i, (k, d)) in ks.iter().zip(&per).enumerate() {
            content.obj(&format!("/'m'/'c{i}'")).push(*k, d);
        }
        cx.feat_n(s.toc() as u64);
        for o in s.meta.as_ref().unwrap() {
            let e = content.obj(&o.path);
            for (n, p) in &o.props {
                e.props.insert(n.clone(), p.clone());
            }
        }
        segs.push(s);
    }
    let (bytes, _) = encode(&segs);
    let d = decode(&bytes).unwrap_or_else(|e| panic!("harness: {e}"));
    assert!(d.content == content, "harness: mixed file decoded differently");
    cx.note(|| seg_text(&segs));
    cx.add("mixed_type_files", 1);
    Base { sh: Shared::new(bytes.clone()), bytes, content, segs: d.segs, foreign: true }
}

/// Files written by the library in which a channel changes type.
fn mixed_written(r: &mut Rng, cx: &mut Cx) -> Result<Base, String> {
    let sh = Shared::new(vec![]);
    let mut content = Content::default();
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    let nch = r.range(1, 3);
    let kinds: Vec<Kind> = (0..r.range(1, 3)).map(|_| *r.pick(&NATURAL)).collect();
    let n0 = r.range(1, 6);
    {
        let mut w = f.writer().map_err(|e| format!("writer failed: {e:?}"))?;
        for _ in 0..r.range(1, 6) {
            let k = *r.pick(&kinds);
            let n = if r.chance(3, 4) { n0 } else { r.range(1, 6) };
            let layout = if r.coin() { DataLayout::Interleaved } else { DataLayout::Contigious };
            let chs: Vec<usize> = (0..r.range(1, nch)).collect();
            let per = op_samples(&chs, k, n, r.next());
            let paths: Vec<ChannelPath> = chs.iter().map(|i| ChannelPath::new("m", &format!("c{i}"))).collect();
            with_kind!(k, T => w.write_channels(&paths, &flat::<T>(&per, n, layout), layout)).map_err(|e| format!("write failed: {e:?}"))?;
            for (i, d) in chs.iter().zip(&per) {
                content.obj(&format!("/'m'/'c{i}'")).push(k, d);
            }
            cx.feat_n(k as u64 * 100 + n as u64);
        }
    }
    cx.add("mixed_type_written_files", 1);
    let bytes = sh.bytes();
    Ok(Base { sh, bytes, content, segs: vec![], foreign: false })
}

fn c10(cx: &mut Cx, r: &mut Rng) -> Res {
    let b = match r.below(4) {
        0 => mixed_file(r, cx),
        1 => mixed_written(r, cx)?,
        2 => {
            let fo = ForeignOpts { max_segs: 4, max_n: 5, strings: false, ..fopts(r) };
            base_file(r, cx, HistOpts::default(), &fo, 100)
        }
        _ => {
            let ho = hopts(r);
            base_file(r, cx, ho, &ForeignOpts { strings: false, ..Default::default() }, 0)
        }
    };
    let mut f = opened(&b)?;
    let paths: Vec<&String> = b.content.objs.keys().filter(|p| is_channel_path(p)).collect();
    if paths.is_empty() {
        return Ok(());
    }
    for _ in 0..8 {
        let k = *r.pick(&NATURAL);
        let p = *r.pick(&paths);
        // favour types that partly fit
        let o = &b.content.objs[p];
        let k = if !o.runs.is_empty() && r.coin() { r.pick(&o.runs).0.natural() } else { k };
        with_kind!(k, T => typed_read::<T>(&mut f, &b, &[p], cx, r))?;
    }
    if paths.len() > 1 {
        for _ in 0..4 {
            let n = r.range(2, paths.len().min(4));
            let mut v = paths.clone();
            r.shuffle(&mut v);
            v.truncate(n);
            let k = b.content.objs[v[0]].runs.first().map_or(*r.pick(&NATURAL), |x| x.0.natural());
            with_kind!(k, T => typed_read::<T>(&mut f, &b, &v, cx, r))?;
        }
    }
    // properties convert only to their own type
    for (p, o) in &b.content.objs {
        let path = pp(p)?;
        for (n, want) in &o.props {
            let v = f.read_property(&path, n).map_err(|e| format!("property read failed: {e:?}"))?.ok_or("property is missing")?.clone();
            super::misc::prop_conversions(&v, want).map_err(|e| format!("property {n:?} of {p}: {e}"))?;
            cx.add("property_conversions", 15);
        }
    }
    Ok(())
}

/// A read of possibly several channels as type T where some of the samples
/// asked for may be of other types.
fn typed_read<T: Elem>(f: &mut File, b: &Base, paths: &[&String], cx: &mut Cx, r: &mut Rng) -> Res {
    let longest = paths.iter().map(|p| b.content.objs[*p].len()).max().unwrap();
    let start = if r.coin() { 0 } else { r.below64(longest + 1) };
    let lens: Vec<usize> = paths.iter().map(|_| r.below(longest as usize + 3)).collect();
    let sents: Vec<T> = paths.iter().map(|_| sentinel::<T>(r)).collect();
    let mut bufs: Vec<Vec<T>> = lens.iter().zip(&sents).map(|(l, s)| vec![s.clone(); *l]).collect();
    let chans: Vec<ChannelPath> = paths.iter().map(|p| cp(p)).collect::<Result<_, _>>()?;
    let res = if paths.len() == 1 {
        f.read_channel_from(&chans[0], start, &mut bufs[0])
    } else {
        let mut slices: Vec<&mut [T]> = bufs.iter_mut().map(|v| &mut v[..]).collect();
        f.read_channels_from(&chans, start, &mut slices)
    };
    let what = format!("read of {paths:?} as {:?} from {start}, lengths {lens:?}", T::KIND);
    // stored kinds met by the samples asked for
    let mut foreign_kinds: Vec<Kind> = vec![];
    let mut fits = 0;
    for (i, p) in paths.iter().enumerate() {
        let mut at = 0u64;
        for (k, d) in &b.content.objs[*p].runs {
            for j in 0..d.len() / k.size() {
                let s = at + j as u64;
                if s < start || s - start >= lens[i] as u64 {
                    continue;
                }
                let x = (s - start) as usize;
                let want = &d[j * k.size()..(j + 1) * k.size()];
                if T::KIND.reads(*k) {
                    fits += 1;
                    let ok = bufs[i][x].is(want);
                    if res.is_ok() && !ok {
                        return Err(format!("{what}: sample {s} stored as {k:?} comes out as {:?}, bytes are {want:02x?}", bufs[i][x]));
                    }
                    if res.is_err() && !ok && !bufs[i][x].same(&sents[i]) {
                        return Err(format!("{what}: failed, and sample {s} is neither untouched nor right: {:?}", bufs[i][x]));
                    }
                } else {
                    if !foreign_kinds.contains(k) {
                        foreign_kinds.push(*k);
                    }
                    if !bufs[i][x].same(&sents[i]) {
                        return Err(format!("{what}: sample {s} is stored as {k:?} but was delivered as {:?}", bufs[i][x]));
                    }
                }
            }
            at += (d.len() / k.size()) as u64;
        }
        for x in 0..lens[i] {
            if start + x as u64 >= at && !bufs[i][x].same(&sents[i]) {
                return Err(format!("{what}: buffer[{x}] is past the end but was changed"));
            }
        }
    }
    cx.add("typed_reads", 1);
    cx.feat_n(T::KIND as u64 * 1000 + foreign_kinds.len() as u64 * 100 + fits);
    cx.feat_n(start);
    cx.nontrivial = true;
    match res {
        Ok(()) if foreign_kinds.is_empty() => Ok(()),
        Ok(()) => Err(format!("{what}: succeeded although samples are stored as {foreign_kinds:?}")),
        Err(TdmsError::DataTypeMismatch(stored, req)) => {
            cx.add("type_mismatches_refused", 1);
            if foreign_kinds.is_empty() {
                return Err(format!("{what}: refused as {stored:?} vs {req:?} although every sample asked for fits"));
            }
            if req != T::NATURAL_TYPE || !foreign_kinds.iter().any(|k| k.datatype() == stored) {
                return Err(format!("{what}: the error names {stored:?} and {req:?}, expected one of {foreign_kinds:?} and {:?}", T::NATURAL_TYPE));
            }
            Ok(())
        }
        Err(e) => Err(format!("{what}: failed with {e:?}, not a type error")),
    }
}

// ----------------------------------------------------------------- calls

#[derive(Clone, Debug)]
pub enum Call {
    Groups,
    Channels(String),
    Props(String),
    Prop(String, String),
    Len(String),
    Read { paths: Vec<String>, kind: Kind, start: u64, lens: Vec<usize>, single: bool, seed: u64 },
    Writer,
}

pub fn rand_call(r: &mut Rng, c: &Content, fit: usize) -> Call {
    let paths: Vec<&String> = c.objs.keys().collect();
    let chans: Vec<&String> = paths.iter().filter(|p| is_channel_path(p)).copied().collect();
    let some = |r: &mut Rng, v: &[&String]| -> String {
        if v.is_empty() || r.chance(1, 10) { "/'no'/'where'".to_string() } else { r.pick(v).to_string() }
    };
    match r.below(12) {
        0 => Call::Groups,
        1 => {
            let p = some(r, &paths);
            Call::Channels(format!("/'{}'", path_group(&p).unwrap_or("no")))
        }
        2 => Call::Props(some(r, &paths)),
        3 => {
            let p = some(r, &paths);
            let n = c.objs.get(&p).and_then(|o| o.props.keys().next().cloned()).unwrap_or("p".into());
            Call::Prop(p, if r.chance(1, 4) { "none".into() } else { n })
        }
        4 => Call::Len(some(r, &chans)),
        _ => {
            let n = if r.chance(2, 3) { 1 } else { r.range(1, 4) };
            let mut ps: Vec<String> = (0..n).map(|_| some(r, &chans)).collect();
            let k = c.objs.get(&ps[0]).and_then(|o| o.kind()).map(|k| k.natural());
            let kind = match k {
                Some(k) if r.below(100) < fit => k,
                _ => *r.pick(&NATURAL),
            };
            if n > 1 && r.coin() {
                // prefer channels of the same type
                ps.retain(|p| c.objs.get(p).and_then(|o| o.kind()).map(|k| k.natural()) == Some(kind));
                if ps.is_empty() {
                    ps.push(some(r, &chans));
                }
            }
            let total = ps.iter().map(|p| c.objs.get(p).map_or(0, |o| o.len())).max().unwrap();
            let start = match r.below(8) {
                0..=3 => 0,
                4 => total + r.below64(3),
                5 if r.chance(1, 4) => u64::MAX - r.below64(2),
                _ => r.below64(total + 1),
            };
            let lens = ps.iter().map(|_| r.below64(total.min(60_000) + 3) as usize).collect();
            Call::Read { single: ps.len() == 1 && r.coin(), paths: ps, kind, start, lens, seed: r.next() }
        }
    }
}

pub fn err_name(e: &TdmsError) -> String {
    format!("{e:?}").split(['(', ' ', '{']).next().unwrap().to_string()
}

/// Outcome of a call, as text. `exact` keeps everything; otherwise failed
/// reads are reduced to the kind of error.
pub fn call_result(f: &mut File, c: &Call, exact: bool) -> Result<String, String> {
    Ok(match c {
        Call::Groups => format!("{:?}", f.list_groups().collect::<Vec<_>>()),
        Call::Channels(g) => format!("{:?}", f.list_channels_in_group(&pp(g)?).map(|c| c.path().to_string()).collect::<Vec<_>>()),
        Call::Props(p) => match f.read_all_properties(&pp(p)?) {
            None => "none".into(),
            Some(it) => it.map(|(n, v)| format!("{n:?}={v:?};")).collect(),
        },
        Call::Prop(p, n) => format!("{:?}", f.read_property(&pp(p)?, n).map_err(|e| err_name(&e))),
        Call::Len(p) => format!("{:?}", f.channel_length(&cp(p)?)),
        Call::Writer => format!("{:?}", f.writer().map(|_| ()).map_err(|e| err_name(&e))),
        Call::Read { paths, kind, start, lens, single, seed } => {
            with_kind!(*kind, T => {
                let mut r = Rng::new(*seed);
                let s = sentinel::<T>(&mut r);
                let mut bufs: Vec<Vec<T>> = lens.iter().map(|l| vec![s.clone(); *l]).collect();
                let chans: Vec<ChannelPath> = paths.iter().map(|p| cp(p)).collect::<Result<_, _>>()?;
                let res = if *single {
                    f.read_channel_from(&chans[0], *start, &mut bufs[0])
                } else {
                    let mut sl: Vec<&mut [T]> = bufs.iter_mut().map(|v| &mut v[..]).collect();
                    f.read_channels_from(&chans, *start, &mut sl)
                };
                let h = hash_bytes(3, format!("{bufs:?}").as_bytes());
                match res {
                    Ok(()) => format!("ok {h:x}"),
                    Err(e) if exact => format!("{e:?} {h:x}"),
                    Err(e) => err_name(&e),
                }
            })
        }
    })
}

// ----------------------------------------------------------------------- C15

fn c15(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut ho = hopts(r);
    ho.max_chans = ho.max_chans.min(4);
    let fo = ForeignOpts { max_segs: 5, ..fopts(r) };
    let b = base_file(r, cx, ho, &fo, 60);
    // piecemeal and interrupted transfers change nothing
    if r.chance(1, 3) {
        b.sh.arm(Faults { short: Some(r.fork()), eintr: if r.coin() { Some(r.fork()) } else { None }, ..Default::default() });
        let mut f = opened(&b)?;
        full_check(&mut f, &b.content, Depth { full: true, partial: 2 }, cx, r).map_err(|e| format!("on a piecemeal stream: {e}"))?;
        cx.add("faults_injected", b.sh.0.borrow().total_faults);
        cx.add("piecemeal_runs", 1);
        cx.feat_n(hash_bytes(9, &b.bytes));
        cx.nontrivial = true;
        return Ok(());
    }
    if r.chance(1, 8) && b.bytes.len() > 8 {
        return c15_cut(cx, r, &b);
    }
    const ERRS: [ErrorKind; 6] =
        [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::InvalidInput];
    let piecemeal = r.chance(1, 3);
    // how many operations does loading take?
    let counts = |f: &dyn Fn() -> Res| -> Result<(u64, u64), String> {
        b.sh.disarm();
        f()?;
        let (a, _, s, _) = b.sh.counters();
        Ok((a, s))
    };
    let (nr, ns) = counts(&|| opened(&b).map(|_| ()))?;
    let mk = |r: &mut Rng, nr: u64, ns: u64| -> Faults {
        let fail = if r.coin() || ns == 0 {
            (OpKind::Read, r.below64(nr + 1), *r.pick(&ERRS))
        } else {
            (OpKind::Seek, r.below64(ns + 1), *r.pick(&ERRS))
        };
        Faults { fail: Some(fail), sticky: r.coin(), short: if piecemeal { Some(r.fork()) } else { None }, ..Default::default() }
    };
    // a fault while loading
    for _ in 0..3 {
        let fa = mk(r, if piecemeal { nr * 6 } else { nr }, ns);
        cx.note(|| format!("load with {:?}", fa.fail));
        cx.feat_n(fa.fail.unwrap().1 * 8 + fa.sticky as u64);
        let d = format!("{:?}", fa.fail);
        b.sh.arm(fa);
        let res = open(&b.sh);
        let hit = b.sh.tripped();
        b.sh.disarm();
        match res {
            Ok(mut f) => {
                if hit {
                    return Err(format!("loading met a stream failure ({d}) and returned success"));
                }
                full_check(&mut f, &b.content, Depth { full: true, partial: 0 }, cx, r)?;
            }
            Err(e) if !hit => return Err(format!("a valid file does not open: {e:?}")),
            Err(_) => cx.add("load_failures_reported", 1),
        }
    }
    cx.nontrivial = true;
    // faults in single calls on one long-lived handle
    let mut f = opened(&b)?;
    for _ in 0..6 {
        let call = rand_call(r, &b.content, 95);
        b.sh.disarm();
        let want = call_result(&mut f, &call, true)?;
        let (nr, _, ns, _) = b.sh.counters();
        let fa = mk(r, if piecemeal { nr * 6 } else { nr }, ns);
        let d = format!("{:?}", fa.fail);
        cx.feat_n(fa.fail.unwrap().1);
        b.sh.arm(fa);
        let got = call_result(&mut f, &call, true)?;
        let hit = b.sh.tripped();
        b.sh.disarm();
        if hit {
            cx.add("read_faults_hit", 1);
            if !matches!(&call, Call::Read { .. }) {
                return Err(format!("{call:?} touched the stream"));
            }
            if got.starts_with("ok") {
                return Err(format!("{call:?} met a stream failure ({d}) and returned success"));
            }
        } else if got != want {
            return Err(format!("{call:?} gave {got}, earlier {want}, without any failure"));
        }
        let again = call_result(&mut f, &call, true)?;
        if again != want {
            return Err(format!("{call:?} after the stream recovered from {d}: {again}, expected {want}"));
        }
    }
    full_check(&mut f, &b.content, Depth { full: true, partial: 1 }, cx, r).map_err(|e| format!("after stream failures: {e}"))
}

/// Loading a file that ends inside a segment, from a stream that fails: an
/// error, or the same as an undisturbed load shows.
fn c15_cut(cx: &mut Cx, r: &mut Rng, b: &Base) -> Res {
    let last = b.segs.last().map_or(0, |s| s.start) as usize;
    let cut = if r.coin() { r.range(1, b.bytes.len() - 1) } else { (last + r.range(1, 40)).min(b.bytes.len() - 1) };
    let sh = Shared::new(b.bytes[..cut].to_vec());
    let mut calm = open(&sh).map_err(|e| format!("cut at {cut}: does not open: {e:?}"))?;
    let (nr, _, ns, _) = sh.counters();
    let calls: Vec<Call> = std::iter::once(Call::Groups).chain((0..10).map(|_| rand_call(r, &b.content, 95))).collect();
    let want: Vec<String> = calls.iter().map(|c| call_result(&mut calm, c, true)).collect::<Result<_, _>>()?;
    cx.feat_n(hash_bytes(5, &b.bytes) ^ cut as u64);
    cx.nontrivial = true;
    for _ in 0..6 {
        let kind = *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData]);
        let fail = if r.coin() { (OpKind::Read, r.below64(nr + 1), kind) } else { (OpKind::Seek, r.below64(ns + 1), kind) };
        sh.arm(Faults { fail: Some(fail), sticky: r.coin(), ..Default::default() });
        let res = open(&sh);
        let hit = sh.tripped();
        sh.disarm();
        match res {
            Err(e) if !hit => return Err(format!("cut at {cut}: does not open a second time: {e:?}")),
            Err(_) => cx.add("load_failures_reported", 1),
            Ok(mut f) => {
                for (c, w) in calls.iter().zip(&want) {
                    let got = call_result(&mut f, c, true)?;
                    if got != *w {
                        return Err(format!("cut at {cut}, loaded with {fail:?}: {c:?} gives {got}, an undisturbed load gives {w}"));
                    }
                }
                cx.add("cut_loads_compared", 1);
            }
        }
    }
    Ok(())
}

// ----------------------------------------------------------------------- C17

fn c17(cx: &mut Cx, r: &mut Rng) -> Res {
    if r.chance(1, 6) && cx.scale.is_none() {
        return c17_memory(cx, r);
    }
    let ho = HistOpts { max_n: 400, ..hopts(r) };
    let mut fo = fopts(r);
    // raw data of all sizes relative to the readers' buffers
    if r.chance(1, 3) {
        fo.max_n = *r.pick(&[600, 1500, 5000]);
        fo.max_segs = 5;
        fo.max_chans = 3;
    }
    let b = base_file(r, cx, ho, &fo, 60);
    b.sh.start_log();
    let mut f = opened(&b)?;
    let log = b.sh.take_log();
    let mut reads = 0;
    for e in &log {
        if let Ev::Read { pos, len, .. } = e {
            reads += 1;
            if let Some(s) = b.segs.get(b.segs.partition_point(|s| s.end <= *pos)).filter(|s| s.raw <= *pos) {
                return Err(format!("loading started a read of {len} bytes at {pos}, inside the raw data {}..{}", s.raw, s.end));
            }
        }
    }
    cx.add("load_reads_judged", reads);
    // reading
    let mut by: BTreeMap<Kind, Vec<String>> = BTreeMap::new();
    for (p, o) in &b.content.objs {
        if let Some(k) = o.kind()
            && o.runs.len() == 1
            && o.strings == 0
        {
            by.entry(k.natural()).or_default().push(p.clone());
        }
    }
    for (k, paths) in &by {
        for _ in 0..3 {
            let n = r.range(1, paths.len().min(4));
            let mut v = paths.clone();
            r.shuffle(&mut v);
            v.truncate(n);
            let mut m = vec![];
            for p in &v {
                m.extend(marks(&b, p));
            }
            let longest = v.iter().map(|p| b.content.objs[p].len()).max().unwrap();
            let start = pick_start(r, &m, longest);
            let lens: Vec<usize> = if r.coin() {
                let l = pick_len(r, &m, start, longest);
                vec![l; n]
            } else {
                v.iter().map(|_| pick_len(r, &m, start, longest)).collect()
            };
            let call = Call::Read { paths: v.clone(), kind: *k, start, lens: lens.clone(), single: n == 1, seed: 5 };
            b.sh.start_log();
            let out = call_result(&mut f, &call, true)?;
            let log = b.sh.take_log();
            if !out.starts_with("ok") {
                return Err(format!("{call:?} failed: {out}"));
            }
            judge_reads(&b.segs, &v, start, &lens, &log, cx).map_err(|e| format!("{call:?}: {e}"))?;
            cx.feat_n(start ^ (lens[0] as u64) << 32 ^ (n as u64) << 60);
            cx.nontrivial = true;
        }
    }
    Ok(())
}

/// Every read must start in raw data that holds requested samples, and not
/// beyond the last byte that is needed of it.
fn judge_reads(segs: &[SegPos], paths: &[String], start: u64, lens: &[usize], log: &[Ev], cx: &mut Cx) -> Res {
    // segment -> last byte needed (exclusive)
    let mut need: BTreeMap<usize, u64> = BTreeMap::new();
    for (p, len) in paths.iter().zip(lens) {
        let end = start.saturating_add(*len as u64);
        for (i, s) in segs.iter().enumerate() {
            for (hp, first, cnt) in &s.holds {
                if hp == p && *len > 0 && start < first + cnt && end > *first {
                    let last = (end - 1).min(first + cnt - 1) - first;
                    // the furthest byte among the samples needed here
                    let size = s.lay.iter().find(|l| l.0 == *p).unwrap().1 as u64;
                    // a row of interleaved samples is one unit
                    let row: u64 = s.lay.iter().map(|l| l.1 as u64).sum();
                    let stop = if s.inter { s.raw + (s.byte_pos(p, last) - s.raw) / row * row + row } else { s.byte_pos(p, last) + size };
                    let e = need.entry(i).or_insert(0);
                    *e = (*e).max(stop);
                }
            }
        }
    }
    for e in log {
        if let Ev::Read { pos, len, .. } = e {
            cx.add("data_reads_judged", 1);
            let at = segs.partition_point(|s| s.end <= *pos);
            match segs.get(at).filter(|s| s.raw <= *pos).map(|_| at) {
                None => return Err(format!("a read of {len} bytes started at {pos}, outside all raw data")),
                Some(i) => match need.get(&i) {
                    None => {
                        return Err(format!("a read of {len} bytes started at {pos}, in segment {i} which holds none of the requested samples"));
                    }
                    Some(stop) if pos >= stop => {
                        return Err(format!("a read of {len} bytes started at {pos}, after the last needed byte {stop} of segment {i}"));
                    }
                    _ => {}
                },
            }
        }
    }
    Ok(())
}

/// Loading huge raw data takes memory and work by its metadata only.
fn c17_memory(cx: &mut Cx, r: &mut Rng) -> Res {
    let v = virtual_file(r, true);
    let meta: u64 = v.meta_bytes;
    let sh = Shared::with_store(v.store());
    let live = alloc::reset_peak();
    let ops0 = sh.total_ops();
    let f = open(&sh).map_err(|e| format!("a valid file does not open: {e:?}"))?;
    let used = alloc::peak().saturating_sub(live) as u64;
    let ops = sh.total_ops() - ops0;
    let read = sh.0.borrow().bytes_read;
    drop(f);
    cx.add("virtual_files_loaded", 1);
    cx.feat_n(v.len);
    cx.feat_n(meta);
    cx.nontrivial = true;
    if used > 400_000 + 100 * meta {
        return Err(format!("loading {meta} bytes of metadata ({} bytes of file) used {used} bytes of memory", v.len));
    }
    if ops > 100 + 40 * v.segs.len() as u64 + meta || read > 300_000 * (v.segs.len() as u64 + 2) + meta {
        return Err(format!("loading {} segments with {meta} bytes of metadata took {ops} stream operations and {read} bytes", v.segs.len()));
    }
    Ok(())
}

// ----------------------------------------------------------------------- C19

/// A random valid encoding of the content.
pub fn encode_content(r: &mut Rng, c: &Content, cx: &mut Cx) -> Vec<Seg> {
    let mut left: BTreeMap<&String, u64> = c.objs.iter().map(|(p, _)| (p, 0)).collect();
    // an overwritten value first, now and then
    let mut stale: BTreeMap<(&String, &String), bool> = BTreeMap::new();
    let mut props: Vec<(&String, &String)> = c.objs.iter().flat_map(|(p, o)| o.props.keys().map(move |n| (p, n))).collect();
    r.shuffle(&mut props);
    let mut intro: Vec<&String> = c.objs.keys().collect();
    r.shuffle(&mut intro);
    let mut introduced: std::collections::BTreeSet<&String> = Default::default();
    let mut active: Vec<(&String, u64)> = vec![];
    let mut last: BTreeMap<&String, (Kind, u64)> = BTreeMap::new();
    let be_mode = match r.below(3) {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    };
    let one_go = r.chance(1, 6);
    // very long channels are not cut into millions of pieces
    let longest = c.objs.values().map(|o| o.len()).max().unwrap_or(0);
    let grain = (*r.pick(&[1u64, 3, 10, 10_000])).max(longest.saturating_sub(70_000) / 10_000);
    let mut segs = vec![];
    let avail = |p: &String, at: u64| c.objs[p].len() - at;
    loop {
        if r.chance(1, 12) {
            // a segment that says nothing, or only that nobody has data
            let newlist = r.chance(1, 4);
            if newlist {
                active.clear();
            }
            let meta = if r.chance(1, 4) { Some(vec![]) } else { None };
            segs.push(Seg { be: r.coin(), interleaved: r.coin(), newlist, meta, ..Default::default() });
        }
        let todo: Vec<&String> = c.objs.keys().filter(|p| avail(p, left[*p]) > 0).collect();
        if todo.is_empty() && props.is_empty() && intro.iter().all(|p| introduced.contains(p)) {
            break;
        }
        let mut s = Seg { be: be_mode.unwrap_or_else(|| r.coin()), interleaved: r.coin(), version: if r.chance(1, 8) { 4712 } else { 4713 }, ..Default::default() };
        let mut objs: Vec<Obj> = vec![];
        let can_go_on = !active.is_empty() && active.iter().all(|(p, n)| avail(p, left[*p]) >= *n);
        let keep = can_go_on && r.chance(2, 3);
        if keep {
            s.newlist = false;
            // restate some of it, or say nothing at all
            if r.coin() {
                for (p, _) in &active {
                    if r.coin() {
                        objs.push(Obj { path: p.to_string(), idx: Idx::Match, props: vec![] });
                    }
                }
            }
        } else {
            s.newlist = true;
            active.clear();
            let mut pick = todo.clone();
            r.shuffle(&mut pick);
            let n = if pick.is_empty() { 0 } else if one_go { pick.len() } else { r.range(1, pick.len()) };
            pick.truncate(n);
            let common = pick.iter().map(|p| avail(p, left[*p])).min().unwrap_or(0);
            let common = if one_go { common } else { common.min(1 + r.below64(grain)) };
            let ragged = !s.interleaved && r.chance(1, 3);
            for p in pick {
                let k = c.objs[p].kind().unwrap();
                let n = if ragged { 1 + r.below64(avail(p, left[p]).min(grain)) } else { common };
                let idx = if last.get(p) == Some(&(k, n)) && r.coin() { Idx::Match } else { Idx::Full { code: k.code(), n, total: None } };
                last.insert(p, (k, n));
                objs.push(Obj { path: p.to_string(), idx, props: vec![] });
                active.push((p, n));
                introduced.insert(p);
            }
        }
        if active.windows(2).any(|w| w[0].1 != w[1].1) {
            s.interleaved = false;
        }
        // properties and bare objects
        let flush = todo.is_empty() || one_go;
        let mut attach: Vec<(&String, String, crate::kinds::Prop)> = vec![];
        let mut rest = vec![];
        for (p, n) in std::mem::take(&mut props) {
            if flush || r.chance(1, 3) {
                let is_stale = !flush && r.chance(1, 4) && !stale.contains_key(&(p, n));
                if is_stale {
                    stale.insert((p, n), true);
                    attach.push((p, n.clone(), crate::kinds::Prop::random(r, true)));
                    rest.push((p, n));
                } else {
                    attach.push((p, n.clone(), c.objs[p].props[n].clone()));
                }
            } else {
                rest.push((p, n));
            }
        }
        props = rest;
        for (p, n, v) in attach {
            introduced.insert(p);
            match objs.iter_mut().find(|o| o.path == *p) {
                Some(o) => o.props.push((n, v)),
                None => {
                    // an active channel must not be dropped from the list
                    let idx = if active.iter().any(|a| a.0 == p) { Idx::Match } else { Idx::None };
                    let at = if matches!(idx, Idx::Match) { objs.len() } else { r.below(objs.len() + 1) };
                    objs.insert(at, Obj { path: p.clone(), idx, props: vec![(n, v)] });
                }
            }
        }
        for p in &intro {
            if !introduced.contains(p) && (flush || r.chance(1, 4)) {
                introduced.insert(p);
                objs.push(Obj { path: p.to_string(), idx: Idx::None, props: vec![] });
            }
        }
        if s.newlist || !objs.is_empty() || r.chance(1, 4) {
            s.meta = Some(objs);
        }
        // raw data
        if !active.is_empty() && active.iter().all(|(p, n)| avail(p, left[*p]) >= *n) && (keep || s.newlist) {
            let max_chunks = active.iter().map(|(p, n)| avail(p, left[*p]) / n).min().unwrap();
            let chunks = if r.coin() { 1 } else { 1 + r.below64(max_chunks.min(5)) };
            s.raw_flag = true;
            for _ in 0..chunks {
                let mut per: Vec<(Kind, Vec<u8>)> = vec![];
                for (p, n) in &active {
                    let o = &c.objs[*p];
                    let k = o.kind().unwrap();
                    let a = left[p] as usize * k.size();
                    per.push((k, o.data()[a..a + *n as usize * k.size()].to_vec()));
                    *left.get_mut(p).unwrap() += n;
                }
                let be = s.be;
                if s.interleaved {
                    for j in 0..active[0].1 as usize {
                        for (k, d) in &per {
                            let x = &d[j * k.size()..(j + 1) * k.size()];
                            s.raw.extend_from_slice(&if be { k.swap(x) } else { x.to_vec() });
                        }
                    }
                } else {
                    for (k, d) in &per {
                        s.raw.extend_from_slice(&if be { k.swap(d) } else { d.clone() });
                    }
                }
            }
        }
        cx.feat_n(s.toc() as u64 | (s.raw.len() as u64) << 8);
        segs.push(s);
    }
    segs
}

fn rand_content(r: &mut Rng) -> Content {
    let mut c = Content::default();
    let nch = r.range(1, 6);
    let kinds: Vec<Kind> = (0..r.range(1, 4)).map(|_| *r.pick(&ALL)).collect();
    for _ in 0..nch {
        let p = format!("/'{}'/'{}'", esc(&rand_name(r)), esc(&rand_name(r)));
        let k = *r.pick(&kinds);
        let n = *r.pick(&[0, 1, 2, 7, 20, 100]);
        let n = r.below(n + 1);
        let d = k.samples(r, n, true);
        let o = c.obj(&p);
        if o.runs.is_empty() {
            o.push(k, &d);
        }
        for (n, v) in rand_props(r, true, 4) {
            o.props.insert(n, v);
        }
    }
    for _ in 0..r.below(4) {
        let p = if r.coin() { "/".to_string() } else { format!("/'{}'", esc(&rand_name(r))) };
        let o = c.obj(&p);
        for (n, v) in rand_props(r, true, 4) {
            o.props.insert(n, v);
        }
    }
    c
}

fn c19(cx: &mut Cx, r: &mut Rng) -> Res {
    let c = match cx.scale {
        Some(v) => crate::scale::foreign([0, 8, 3, 4, 1][v as usize % 5], r, &[], cx).content,
        None => rand_content(r),
    };
    let mut hs = vec![];
    for _ in 0..2 {
        let segs = encode_content(r, &c, cx);
        let (bytes, _) = encode(&segs);
        let d = decode(&bytes).unwrap_or_else(|e| panic!("harness: encoder and decoder disagree: {e}: {}", seg_text(&segs)));
        assert!(d.content == c, "harness: encoding changed the content: {}", seg_text(&segs));
        cx.note(|| seg_text(&segs));
        cx.add("encodings_compared", 1);
        cx.add("segments", segs.len() as u64);
        let sh = Shared::new(bytes);
        let f = open(&sh).map_err(|e| format!("a valid encoding does not open: {e:?}: {}", seg_text(&segs)))?;
        hs.push((f, segs));
    }
    cx.nontrivial = true;
    let mut calls: Vec<Call> = vec![Call::Groups];
    for p in c.objs.keys() {
        calls.push(Call::Props(p.clone()));
        if let Some(g) = path_group(p) {
            calls.push(Call::Channels(format!("/'{g}'")));
        }
        if is_channel_path(p) {
            calls.push(Call::Len(p.clone()));
        }
    }
    for _ in 0..12 {
        calls.push(rand_call(r, &c, 95));
    }
    let (a, b) = hs.split_at_mut(1);
    for call in &calls {
        let x = call_result(&mut a[0].0, call, false)?;
        let y = call_result(&mut b[0].0, call, false)?;
        if x != y {
            return Err(format!(
                "{call:?} gives {x:.200} on one encoding and {y:.200} on another; A: {:.600} B: {:.600}",
                seg_text(&a[0].1),
                seg_text(&b[0].1)
            ));
        }
        cx.add("calls_compared", 1);
    }
    // and both are right
    for (f, _) in hs.iter_mut() {
        full_check(f, &c, Depth { full: true, partial: 0 }, cx, r)?;
    }
    Ok(())
}

// ----------------------------------------------------------------------- C20

/// Files too large to exist, whole and cut.
fn c20_huge(cx: &mut Cx, r: &mut Rng) -> Res {
    let v = virtual_file(r, false);
    let at = if r.coin() { v.len } else { r.below64(v.len) };
    cx.note(|| format!("{} of a file of {} bytes", at, v.len));
    cx.feat_n(at);
    cx.add("huge_files", 1);
    let sh = Shared::with_store(v.cut_store(at));
    sh.set_budget(100_000);
    let mut f = open(&sh).map_err(|e| format!("{at} of a file of {} bytes do not open: {e:?}", v.len))?;
    lengths(&mut f, &sh, cx, r)
}

fn c20(cx: &mut Cx, r: &mut Rng) -> Res {
    if cx.scale.is_none() && r.chance(1, 10) {
        return c20_huge(cx, r);
    }
    let (ho, fo) = (hopts(r), fopts(r));
    let b = base_file(r, cx, ho, &fo, 60);
    let mut bytes = b.bytes.clone();
    match r.below(3) {
        0 => {}
        1 => {
            bytes.truncate(r.below(bytes.len() + 1));
            cx.add("cut_files", 1);
        }
        _ => {
            super::hostile::mutate(&mut bytes, r);
            cx.add("damaged_files", 1);
        }
    }
    cx.feat_n(hash_bytes(4, &bytes));
    let sh = Shared::new(bytes);
    sh.set_budget(20_000 + 200 * sh.len());
    alloc::set_limit(256 << 20);
    let res = open(&sh);
    if let Ok(mut f) = res {
        lengths(&mut f, &sh, cx, r)?;
    }
    alloc::set_limit(usize::MAX);
    Ok(())
}

fn lengths(f: &mut File, sh: &Shared, cx: &mut Cx, r: &mut Rng) -> Res {
    let groups: Vec<String> = f.list_groups().map(String::from).collect();
    for g in groups.iter().take(12) {
        let Ok(gp) = pp(&format!("/'{g}'")) else { continue };
        let chans: Vec<ChannelPath> = f.list_channels_in_group(&gp).collect();
        for c in chans.iter().take(12) {
            let Some(len) = f.channel_length(c) else {
                return Err(format!("channel {c} is listed but has no length"));
            };
            for k in NATURAL {
                sh.set_budget(sh.len().saturating_mul(400).min(1 << 32) + 100_000);
                if with_kind!(k, T => judge_len::<T>(f, c, len, cx, r))? {
                    cx.add("lengths_judged", 1);
                    cx.nontrivial = true;
                    break;
                }
            }
        }
    }
    let c = ChannelPath::new("no such", "channel");
    if let Some(n) = f.channel_length(&c)
        && f.read_all_properties(c.as_ref()).is_none()
    {
        return Err(format!("an unknown channel has length {n}"));
    }
    Ok(())
}

/// How many leading elements a read delivers, judged with two different fills.
fn delivered<T: Elem>(f: &mut File, c: &ChannelPath, start: u64, n: usize, r: &mut Rng) -> Result<Option<(usize, Vec<T>)>, String> {
    let s1 = sentinel::<T>(r);
    let mut s2 = sentinel::<T>(r);
    while s2.same(&s1) {
        s2 = sentinel::<T>(r);
    }
    let mut a = vec![s1.clone(); n];
    let mut b = vec![s2.clone(); n];
    let ra = f.read_channel_from(c, start, &mut a);
    let rb = f.read_channel_from(c, start, &mut b);
    if ra.is_err() || rb.is_err() {
        return Ok(None);
    }
    // an element left alone differs between the two buffers
    let cnt = a.iter().zip(&b).take_while(|(x, y)| x.same(y)).count();
    for i in cnt..n {
        if !a[i].same(&s1) || !b[i].same(&s2) {
            return Err(format!("a read of {c} from {start} fills element {i} but not element {cnt}"));
        }
    }
    Ok(Some((cnt, a)))
}

fn judge_len<T: Elem>(f: &mut File, c: &ChannelPath, len: u64, cx: &mut Cx, r: &mut Rng) -> Result<bool, String> {
    if len <= 200_000 {
        let n = len as usize + 1 + r.below(5);
        let Some((cnt, all)) = delivered::<T>(f, c, 0, n, r)? else { return Ok(false) };
        if cnt as u64 != len {
            return Err(format!("channel {c} reports {len} samples but a read of {n} delivers {cnt} (as {:?})", T::KIND));
        }
        cx.add("samples_delivered", cnt as u64);
        for _ in 0..3 {
            if len == 0 {
                break;
            }
            let at = match r.below(4) {
                0 => len - 1,
                _ => r.below64(len),
            };
            match delivered::<T>(f, c, at, 1, r)? {
                Some((1, v)) if v[0].same(&all[at as usize]) => {}
                Some((n, v)) => {
                    return Err(format!("sample {at} of {c} (length {len}) on its own: {n} delivered, {:?}, in bulk {:?}", v.first(), all[at as usize]));
                }
                None => return Err(format!("sample {at} of {c} (length {len}) cannot be read on its own")),
            }
        }
    } else {
        // too long to read whole: both ends and some positions
        let Some((cnt, _)) = delivered::<T>(f, c, 0, 3, r)? else { return Ok(false) };
        if cnt != 3 {
            return Err(format!("channel {c} reports {len} samples but sample {cnt} is not delivered"));
        }
        for at in [len - 1, r.below64(len), len / 2] {
            let want = (len - at).min(4);
            match delivered::<T>(f, c, at, 4, r)? {
                Some((n, _)) if n as u64 == want => {}
                Some((n, _)) => return Err(format!("channel {c} reports {len} samples but from {at} a read of 4 gives {n}")),
                // part of it is stored as another type: refused as a whole read would be
                None => return Ok(false),
            }
        }
    }
    match delivered::<T>(f, c, len, 2, r)? {
        Some((0, _)) | None => {}
        Some((n, _)) => return Err(format!("channel {c} reports {len} samples but {n} more are delivered from there")),
    }
    Ok(true)
}

// ----------------------------------------------------------------------- C21

fn c21(cx: &mut Cx, r: &mut Rng) -> Res {
    let ho = hopts(r);
    let fo = ForeignOpts { unfinished: false, ..fopts(r) };
    let b = match r.below(8) {
        0 => mixed_file(r, cx),
        _ => base_file(r, cx, ho, &fo, 50),
    };
    let mut f = opened(&b)?;
    for _ in 0..r.range(6, 20) {
        let call = if r.chance(1, 10) { Call::Writer } else { rand_call(r, &b.content, 70) };
        // what a handle without history says
        let fresh_sh = Shared::new(b.bytes.clone());
        let mut fresh = open(&fresh_sh).map_err(|e| format!("a valid file does not open: {e:?}"))?;
        let want = call_result(&mut fresh, &call, true)?;
        // now and then a stream error on the used handle first
        if r.chance(1, 6) {
            b.sh.arm(Faults { fail: Some((if r.coin() { OpKind::Read } else { OpKind::Seek }, r.below64(3), ErrorKind::Other)), ..Default::default() });
            let other = rand_call(r, &b.content, 90);
            let _ = call_result(&mut f, &other, true)?;
            b.sh.disarm();
            cx.add("failed_calls_interposed", 1);
        }
        // or a read that the program's own type ends with an error
        if r.chance(1, 6) && !b.content.objs.is_empty() {
            let of8: Vec<&String> = b.content.objs.iter().filter(|(_, o)| o.runs.iter().any(|(k, _)| matches!(k, Kind::U64 | Kind::I64 | Kind::F64))).map(|(p, _)| p).collect();
            if let Some(p) = of8.get(r.below(of8.len().max(1))) {
                let p = cp(p)?;
                let start = r.below64(4);
                let mut out = vec![Picky(0); r.range(1, 40)];
                let n = out.len();
                let mut two = vec![Picky(0); r.range(1, 40)];
                let res = match r.below(3) {
                    0 => f.read_channel_from(&p, start, &mut out),
                    1 => f.read_channels(&[&p, &p], &mut [&mut out[..], &mut two[..]]),
                    _ => f.read_channel(&p, &mut out[..n / 2]),
                };
                cx.add("reads_ended_by_the_element_type", res.is_err() as u64);
            }
        }
        let got = call_result(&mut f, &call, true)?;
        if got != want {
            return Err(format!("{call:?} gives {got:.300} on a used handle but {want:.300} on a fresh one"));
        }
        if call_result(&mut f, &call, true)? != want {
            return Err(format!("{call:?} gives another result the second time"));
        }
        cx.add("calls_compared", 1);
        cx.feat(format!("{call:?}").as_bytes());
        if b.sh.with_bytes(|x| x != &b.bytes[..]) {
            return Err(format!("{call:?} changed the file"));
        }
        if !got.starts_with("ok") {
            cx.add("calls_that_failed", 1);
        }
    }
    cx.nontrivial = true;
    full_check_or_skip(&mut f, &b, cx, r)
}

fn full_check_or_skip(f: &mut File, b: &Base, cx: &mut Cx, r: &mut Rng) -> Res {
    full_check(f, &b.content, Depth { full: true, partial: 0 }, cx, r)
}

// ----------------------------------------------------------------------- C22

pub struct VSeg {
    pub start: u64,
    pub raw: u64,
    pub inter: bool,
    pub be: bool,
    /// (channel, samples per chunk)
    pub lay: Vec<(usize, u64)>,
    pub chunks: u64,
    pub end: u64,
}

pub struct Virtual {
    pub segs: Vec<VSeg>,
    pub kinds: Vec<Kind>,
    pub ext: Vec<(u64, Vec<u8>)>,
    pub len: u64,
    pub meta_bytes: u64,
    /// Samples per channel still shown once the file was cut.
    pub shown: Option<Vec<u64>>,
}

impl Virtual {
    pub fn store(&self) -> Store {
        Store::Sparse { len: self.len, ext: self.ext.clone() }
    }
    pub fn path(c: usize) -> String {
        format!("/'g'/'c{c}'")
    }
    pub fn total(&self, c: usize) -> u64 {
        self.segs.iter().map(|s| s.lay.iter().filter(|l| l.0 == c).map(|l| l.1 * s.chunks).sum::<u64>()).sum()
    }
    /// Samples of the channel a reader has to find before those added later.
    fn base(&self, c: usize) -> u64 {
        self.shown.as_ref().map_or_else(|| self.total(c), |s| s[c])
    }
    /// The same file without the bytes from `at` on.
    pub fn cut_store(&self, at: u64) -> Store {
        let ext = self
            .ext
            .iter()
            .filter(|(s, _)| *s < at)
            .map(|(s, b)| (*s, b[..b.len().min((at - s) as usize)].to_vec()))
            .collect();
        Store::Sparse { len: at, ext }
    }
    /// Samples of the channel in segments that end at or before `at`, and those that can be left of the cut one.
    pub fn range_at(&self, c: usize, at: u64) -> (u64, u64) {
        let cnt = |s: &VSeg| s.lay.iter().filter(|l| l.0 == c).map(|l| l.1 * s.chunks).sum::<u64>();
        let full = self.segs.iter().filter(|s| s.end <= at).map(cnt).sum::<u64>();
        let Some(s) = self.segs.iter().find(|s| s.raw < at && at < s.end) else { return (full, full) };
        let here = cnt(s).min((at - s.raw) / self.kinds[c].size() as u64);
        (full, full + here)
    }
    fn seg_pos(&self, s: &VSeg) -> SegPos {
        SegPos {
            start: s.start,
            raw: s.raw,
            end: s.end,
            holds: vec![],
            lay: s.lay.iter().map(|(c, n)| (Self::path(*c), self.kinds[*c].size(), *n)).collect(),
            inter: s.inter,
        }
    }
    /// Canonical bytes of sample `i` of channel `c`.
    pub fn sample(&self, c: usize, i: u64) -> Option<Vec<u8>> {
        let mut at = 0;
        for s in &self.segs {
            if let Some(l) = s.lay.iter().find(|l| l.0 == c) {
                let cnt = l.1 * s.chunks;
                if i < at + cnt {
                    let p = self.seg_pos(s).byte_pos(&Self::path(c), i - at);
                    let k = self.kinds[c];
                    let raw: Vec<u8> = (p..p + k.size() as u64).map(pattern).collect();
                    return Some(if s.be { k.swap(&raw) } else { raw });
                }
                at += cnt;
            }
        }
        None
    }
}

fn big(r: &mut Rng, max: u64) -> u64 {
    let v = match r.below(6) {
        0 => 1 + r.below64(20),
        1 => (1u64 << 31) - 2 + r.below64(4),
        2 => (1u64 << 32) - 2 + r.below64(4),
        3 => (1u64 << 33) + r.below64(1000),
        4 => 1u64 << r.range(20, 60),
        _ => 1 + r.below64(1 << 40),
    };
    v.clamp(1, max.max(1))
}

/// A file with enormous raw data whose bytes are a function of position.
pub fn virtual_file(r: &mut Rng, many: bool) -> Virtual {
    let nch = r.range(1, 4);
    let same = r.coin();
    let k0 = *r.pick(&ALL);
    let kinds: Vec<Kind> = (0..nch).map(|_| if same { k0 } else { *r.pick(&ALL) }).collect();
    let mut v = Virtual { segs: vec![], kinds, ext: vec![], len: 0, meta_bytes: 0, shown: None };
    let nseg = if many { r.range(1, 12) } else { r.range(1, 5) };
    for _ in 0..nseg {
        let mut chs: Vec<usize> = (0..nch).collect();
        r.shuffle(&mut chs);
        let n = r.range(1, nch);
        chs.truncate(n);
        let inter = r.coin();
        let row: u64 = chs.iter().map(|c| v.kinds[*c].size() as u64).sum();
        // stay inside 2^62 bytes in total
        let room = (1u64 << 62) / (nseg as u64 * row * 2);
        let n = big(r, room);
        let ragged = !inter && r.chance(1, 4);
        let lay: Vec<(usize, u64)> = chs.iter().map(|c| (*c, if ragged && r.coin() { big(r, n) } else { n })).collect();
        let chunk: u64 = lay.iter().map(|(c, n)| v.kinds[*c].size() as u64 * n).sum();
        let max_chunks = (room * row / chunk).max(1);
        let chunks = match r.below(3) {
            0 => 1,
            1 => 1 + r.below64(max_chunks.min(5)),
            _ => big(r, max_chunks),
        };
        let s = Seg {
            be: r.coin(),
            interleaved: inter,
            newlist: true,
            raw_flag: true,
            meta: Some(lay.iter().map(|(c, n)| Obj { path: Virtual::path(*c), idx: Idx::Full { code: v.kinds[*c].code(), n: *n, total: None }, props: vec![] }).collect()),
            raw_virtual: Some(chunk * chunks),
            ..Default::default()
        };
        let (head, raw_len) = s.head();
        v.meta_bytes += head.len() as u64;
        let start = v.len;
        let raw = start + head.len() as u64;
        v.ext.push((start, head));
        v.len = raw + raw_len;
        v.segs.push(VSeg { start, raw, inter, be: s.be, lay, chunks, end: v.len });
    }
    v
}

fn c22(cx: &mut Cx, r: &mut Rng) -> Res {
    let v = virtual_file(r, false);
    for s in &v.segs {
        cx.feat_n(s.end);
        cx.feat_n(s.chunks * 2 + s.inter as u64);
    }
    cx.nontrivial = v.len > u32::MAX as u64;
    cx.add("virtual_terabytes", v.len >> 40);
    cx.note(|| {
        format!(
            "kinds {:?} segments {:?}",
            v.kinds,
            v.segs.iter().map(|s| (s.start, s.raw, s.end, s.inter, s.be, &s.lay, s.chunks)).collect::<Vec<_>>()
        )
    });
    let sh = Shared::with_store(v.store());
    sh.set_budget(5_000);
    let mut f = open(&sh).map_err(|e| format!("a valid file of {} bytes does not open: {e:?}", v.len))?;
    far_reads(&mut f, &sh, &v, &BTreeMap::new(), cx, r)?;
    // append at the far end
    if r.chance(1, 2) {
        far_append(f, &sh, &v, cx, r)?;
    }
    // the same file cut somewhere
    if r.chance(1, 3) {
        far_cut(v, cx, r)?;
    }
    Ok(())
}
/// Write more behind what is there, and see it from this and from a new handle.
fn far_append(mut f: File, sh: &Shared, v: &Virtual, cx: &mut Cx, r: &mut Rng) -> Res {
    let mut added: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    sh.set_budget(50_000);
    let mut ops = vec![];
    {
        let mut w = f.writer().map_err(|e| format!("writer on a file of {} bytes failed: {e:?}", sh.len()))?;
        for _ in 0..r.range(1, 3) {
            let c = r.below(v.kinds.len());
            if v.kinds[c].natural() != v.kinds[c] {
                continue;
            }
            let n = r.range(1, 9);
            let d = v.kinds[c].samples(r, n, false);
            with_kind!(v.kinds[c], T => w.write_channels(&[cp(&Virtual::path(c))?], &flat::<T>(std::slice::from_ref(&d), n, DataLayout::Contigious), DataLayout::Contigious))
                .map_err(|e| format!("append at {} failed: {e:?}", sh.len()))?;
            added.entry(c).or_default().extend_from_slice(&d);
            ops.push((c, n));
        }
    }
    cx.add("appends_beyond_4gib", (sh.len() > u32::MAX as u64) as u64 * ops.len() as u64);
    far_reads(&mut f, sh, v, &added, cx, r).map_err(|e| format!("after appending {ops:?}: {e}"))?;
    sh.set_budget(5_000);
    let mut g = open(sh).map_err(|e| format!("does not reopen after appending {ops:?}: {e:?}"))?;
    far_reads(&mut g, sh, v, &added, cx, r).map_err(|e| format!("after appending {ops:?} and reopening: {e}"))?;
    Ok(())
}

/// A huge file cut anywhere keeps what was complete, exactly, and can be continued.
pub fn far_cut(mut v: Virtual, cx: &mut Cx, r: &mut Rng) -> Res {
    let s = r.below(v.segs.len());
    let s = &v.segs[s];
    let at = match r.below(6) {
        0 => s.start + r.below64(s.raw - s.start + 1),
        1 => s.raw + r.below64(40).min(s.end - s.raw),
        2 => s.end - r.below64(40).min(s.end - s.raw),
        3 => {
            // around the end of a chunk
            let chunk = (s.end - s.raw) / s.chunks;
            let p = s.raw + chunk * r.below64(s.chunks + 1);
            p.saturating_add(r.below64(5)).saturating_sub(2).clamp(s.raw, s.end)
        }
        _ => s.raw + r.below64(s.end - s.raw + 1),
    };
    let (full, most): (Vec<u64>, Vec<u64>) = (0..v.kinds.len()).map(|c| v.range_at(c, at)).unzip();
    let sh = Shared::with_store(v.cut_store(at));
    sh.set_budget(5_000);
    let mut f = open(&sh).map_err(|e| format!("the file of {} bytes cut at {at} does not open: {e:?}", v.len))?;
    let mut shown = vec![];
    for c in 0..v.kinds.len() {
        let n = f.channel_length(&cp(&Virtual::path(c))?).unwrap_or(0);
        if n < full[c] || n > most[c] {
            return Err(format!("the file of {} bytes cut at {at} shows {n} samples of channel {c}, complete are {}, at most {} are left", v.len, full[c], most[c]));
        }
        shown.push(n);
    }
    cx.add("huge_files_cut", 1);
    cx.feat_n(at);
    v.shown = Some(shown);
    far_reads(&mut f, &sh, &v, &BTreeMap::new(), cx, r).map_err(|e| format!("cut at {at}: {e}"))?;
    far_append(f, &sh, &v, cx, r).map_err(|e| format!("cut at {at}: {e}"))
}

fn far_reads(f: &mut File, sh: &Shared, v: &Virtual, added: &BTreeMap<usize, Vec<u8>>, cx: &mut Cx, r: &mut Rng) -> Res {
    let empty: Vec<u8> = vec![];
    let extra = |c: usize| added.get(&c).unwrap_or(&empty);
    let mut present = vec![];
    for c in 0..v.kinds.len() {
        let total = v.base(c) + (extra(c).len() / v.kinds[c].size()) as u64;
        let path = cp(&Virtual::path(c))?;
        match f.channel_length(&path) {
            Some(n) if n == total => {
                if n > 0 {
                    present.push((c, total));
                }
            }
            None if total == 0 => {}
            other => return Err(format!("length of channel {c} is {other:?}, expected {total}")),
        }
    }
    let want = |c: usize, i: u64| -> Option<Vec<u8>> {
        let base = v.base(c);
        let k = v.kinds[c];
        if i >= base {
            let o = (i - base) as usize * k.size();
            extra(c).get(o..o + k.size()).map(|s| s.to_vec())
        } else {
            v.sample(c, i)
        }
    };
    if present.is_empty() {
        return Ok(());
    }
    for _ in 0..8 {
        let (c0, t0) = *r.pick(&present);
        let k = v.kinds[c0].natural();
        let mut list = vec![c0];
        if r.coin() {
            for (c, _) in &present {
                if *c != c0 && v.kinds[*c].natural() == k && r.coin() {
                    list.push(*c);
                }
            }
            r.shuffle(&mut list);
        }
        // positions around segment and chunk boundaries of the first channel
        let mut m = vec![0, t0, 1 << 31, 1 << 32, 1 << 33];
        let mut at = 0;
        for s in &v.segs {
            if let Some(l) = s.lay.iter().find(|l| l.0 == c0) {
                m.push(at);
                m.push(at + l.1);
                m.push(at + l.1 * r.below64(s.chunks + 1));
                at += l.1 * s.chunks;
                m.push(at);
            }
        }
        let start = match r.below(5) {
            0 => r.below64(t0),
            _ => near(r, &m).saturating_sub(r.below64(4)),
        };
        let lens: Vec<usize> = list.iter().map(|_| r.range(1, 12)).collect();
        // work must not depend on how far away the samples are
        sh.set_budget(400 + 200 * lens.iter().sum::<usize>() as u64);
        let t = super::hostile::thread_cpu();
        with_kind!(k, T => {
            let s = sentinel::<T>(r);
            let mut bufs: Vec<Vec<T>> = lens.iter().map(|l| vec![s.clone(); *l]).collect();
            let chans: Vec<ChannelPath> = list.iter().map(|c| cp(&Virtual::path(*c))).collect::<Result<_, _>>()?;
            let mut sl: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
            let what = format!("read of channels {list:?} from {start} lengths {lens:?}");
            f.read_channels_from(&chans, start, &mut sl).map_err(|e| format!("{what} failed: {e:?}"))?;
            for (j, c) in list.iter().enumerate() {
                for (x, val) in bufs[j].iter().enumerate() {
                    let w = start.checked_add(x as u64).and_then(|i| want(*c, i));
                    match w {
                        Some(b) if !val.is(&b) => return Err(format!("{what}: sample {} of channel {c} is {val:?}, expected {b:02x?}", start + x as u64)),
                        None if !val.same(&s) => return Err(format!("{what}: element {x} past the end of channel {c} was changed")),
                        _ => {}
                    }
                    cx.add("far_samples_compared", w.is_some() as u64);
                }
            }
        });
        let used = super::hostile::thread_cpu() - t;
        if used > 5.0 {
            return Err(format!("a read of {lens:?} samples from {start} took {used:.1} CPU seconds"));
        }
        cx.feat_n(start);
        cx.add("far_reads", 1);
    }
    sh.set_budget(u64::MAX);
    Ok(())
}

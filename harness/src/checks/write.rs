//! C01 C02 C03 C07 C08 C13 C14 C16: writing, reopening, crash and fault behaviour.

use super::{Base, Cands, Check, base_file, bracket, writable_chans};
use crate::cx::{Cx, Res};
use crate::disk::{Ev, Faults, OpKind, Shared};
use crate::kinds::{Kind, NATURAL, Prop};
use crate::rng::Rng;
use crate::spec::{Content, decode, is_channel_path, path_group};
use crate::view::{Depth, File, cp, data_check, full_check, open, pp};
use crate::workload::*;
use std::io::ErrorKind;
use tedium::{ChannelPath, PropertyPath, TdmsFile};

pub static CHECKS: &[Check] = &[
    Check {
        id: "C01",
        case: c01,
        quick: 200000,
        thorough: 8000000,
        method: "differential monitoring of random write histories against an independent model",
        rule: "distinct operation sequences (channels, element type, layout, sample count per write, property writes) that wrote at least one sample",
        assumptions: &["A channel is not listed twice in one write call.", "Group and channel names that differ only in ' versus \" are the same object (documented normalisation)."],
        extra: None,
    },
    Check {
        id: "C02",
        case: c02,
        quick: 120000,
        thorough: 2500000,
        method: "differential monitoring of random close/reopen histories, on monitored streams and on real files",
        rule: "distinct session histories that wrote at least one sample or property and were reopened",
        assumptions: &["The file is not modified by others while open."],
        extra: None,
    },
    Check {
        id: "C03",
        case: c03,
        quick: 250000,
        thorough: 8000000,
        method: "every file produced is decoded by an independent strict decoder of the format",
        rule: "distinct write histories whose output was decoded",
        assumptions: &["The strict decoder follows NI's published description of TDMS 2.0.", "A channel is not listed twice in one write call."],
        extra: None,
    },
    Check {
        id: "C07",
        case: c07,
        quick: 200000,
        thorough: 7000000,
        method: "differential monitoring of property histories against a last-writer-wins model",
        rule: "distinct histories of property writes (object, name, type and bits) mixed with data writes and reopenings",
        assumptions: &["When one call names a property twice, the later value counts as the more recent one."],
        extra: None,
    },
    Check {
        id: "C08",
        case: c08,
        quick: 300000,
        thorough: 10000000,
        method: "listings compared with an independent path grammar over random sets of hostile names",
        rule: "distinct sets of object paths with at least two objects",
        assumptions: &["Foreign object paths follow the format's grammar (quotes in names doubled)."],
        extra: None,
    },
    Check {
        id: "C13",
        case: c13,
        quick: 20000,
        thorough: 500000,
        method: "every cut position of small files (sampled positions of larger ones), then more writes",
        rule: "distinct (file, cut position) pairs where the cut removed at least one byte",
        assumptions: &["The file was valid before the cut; bytes before the cut are intact."],
        extra: None,
    },
    Check {
        id: "C14",
        case: c14,
        quick: 300000,
        thorough: 8000000,
        method: "fault injection at every kind of stream operation and position, observed by a fresh open",
        rule: "distinct (history, fault kind, fault position, transfer pattern) combinations",
        assumptions: &[
            "The stream is any Read+Write+Seek; the library has no way to request fsync, so flushing the stream is the strongest durability observable.",
            "After an operation failed the program goes on with the same writer, a new one or a fresh handle; only the last two promise anything for what it writes next.",
        ],
        extra: None,
    },
    Check {
        id: "C16",
        case: c16,
        quick: 160000,
        thorough: 5000000,
        method: "write-position monitor on every stream write and twin-run comparison for refused writes",
        rule: "distinct histories containing successful writes together with refused ones or reads",
        assumptions: &["The file's last segment is complete (repairing a torn tail is C13's subject)."],
        extra: Some(crate::sup::long_texts),
    },
];

fn big_opts(r: &mut Rng) -> HistOpts {
    HistOpts {
        max_n: *r.pick(&[4, 12, 40, 40, 300]),
        max_ops: *r.pick(&[3, 6, 12]),
        max_sessions: *r.pick(&[1, 2, 4, 7]),
        max_chans: *r.pick(&[1, 2, 3, 6, 6, 12]),
        props_pct: *r.pick(&[0, 10, 25, 50]),
        plain_names: r.coin(),
        ..Default::default()
    }
}

/// Start a history on an empty stream, or on a file that already has content.
pub fn start(r: &mut Rng, cx: &mut Cx, o: HistOpts, unfinished: bool) -> (Shared, Content, Hist) {
    if let Some(v) = cx.scale
        && v % 4 != 3
    {
        return (Shared::new(vec![]), Content::default(), crate::scale::hist(v - v / 4, r, cx));
    }
    cx.scale = cx.scale.map(|v| v / 4);
    if cx.scale.is_some() || r.chance(1, 4) {
        let fo = ForeignOpts { strings: r.chance(1, 4), unequal: r.chance(1, 3), unfinished, max_segs: 5, ..Default::default() };
        let b = base_file(r, cx, HistOpts::default(), &fo, 100);
        let mut extra = writable_chans(&b.content);
        r.shuffle(&mut extra);
        extra.truncate(5);
        let mut h = hist_with(r, o, extra);
        // channels that hold another type, or strings, are not written to
        h.chans.iter_mut().for_each(|c| {
            if let Some(ob) = b.content.objs.get(&c.path)
                && (ob.strings > 0 || ob.runs.len() > 1 || ob.kind().is_some_and(|k| k != c.kind))
            {
                c.group.push_str("~new");
                c.path = format!("/'{}'/'{}'", esc(&c.group), esc(&c.name));
            }
        });
        cx.add("histories_on_foreign_files", 1);
        return (b.sh, b.content, h);
    }
    (Shared::new(vec![]), Content::default(), hist(r, o))
}

/// Now and then some writes are of another type than the channel held so far.
fn mix_types(h: &mut Hist, r: &mut Rng, cx: &mut Cx) {
    if cx.scale.is_some() || !r.chance(1, 6) {
        return;
    }
    let Some(k) = h.chans.first().map(|c| c.kind) else { return };
    let alike: Vec<Kind> = NATURAL.iter().copied().filter(|n| n.size() == k.size()).collect();
    let other = if r.chance(2, 3) { *r.pick(&alike) } else { *r.pick(&NATURAL) };
    for s in &mut h.sessions {
        for op in &mut s.ops {
            if let WOp::Write { kind, .. } = op
                && r.chance(1, 3)
            {
                *kind = other;
                cx.add("writes_of_another_type", 1);
            }
        }
    }
}

fn c01(cx: &mut Cx, r: &mut Rng) -> Res {
    cx.wide_channels = true;
    let mut o = big_opts(r);
    o.reopen_pct = 0;
    let (sh, mut content, mut h) = start(r, cx, o, true);
    mix_types(&mut h, r, cx);
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    for s in &h.sessions {
        cx.note(|| "writer()".into());
        run_session(&mut f, &h, s, &mut content, cx)?;
        data_check(&mut f, &content, Depth { full: true, partial: 1 }, cx, r)?;
    }
    Ok(())
}

fn c02(cx: &mut Cx, r: &mut Rng) -> Res {
    cx.wide_channels = true;
    let mut o = big_opts(r);
    o.reopen_pct = 50;
    o.max_sessions = o.max_sessions.max(2);
    if r.chance(1, 6) && cx.scale.is_none() {
        return c02_real(cx, r, o);
    }
    let (sh, mut content, h) = start(r, cx, o, true);
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    for s in &h.sessions {
        run_session(&mut f, &h, s, &mut content, cx)?;
        let deep = Depth { full: true, partial: 1 };
        full_check(&mut f, &content, deep, cx, r).map_err(|e| format!("writing handle: {e}"))?;
        let before = sh.bytes();
        let mut g = TdmsFile::new(sh.open_at(r.below(40) as u64)).map_err(|e| format!("reopening a written file failed: {e:?}"))?;
        full_check(&mut g, &content, deep, cx, r).map_err(|e| format!("reopened handle: {e}"))?;
        if sh.bytes() != before {
            return Err("opening and reading a file changed it".into());
        }
        cx.add("reopenings", 1);
        if s.reopen_after {
            cx.note(|| "reopen".into());
            f = g;
        }
    }
    Ok(())
}

/// The same on real files, through `create` and `load`.
fn c02_real(cx: &mut Cx, r: &mut Rng, o: HistOpts) -> Res {
    let _ = std::fs::create_dir_all(&cx.scratch);
    let path = cx.scratch.join(format!("f{}.tdms", cx.index));
    if r.coin() {
        // creating over something that exists must leave an empty file
        let n = r.below(300);
        let there = r.bytes(n);
        std::fs::write(&path, &there).unwrap();
        let _ = TdmsFile::load(&path);
        if std::fs::read(&path).ok() != Some(there) {
            return Err("loading a path that holds no TDMS data changed it".into());
        }
    } else {
        let _ = std::fs::remove_file(&path);
        if TdmsFile::load(&path).is_ok() {
            return Err("a path where there is no file loads".into());
        }
        if path.exists() {
            return Err("loading a path where there is no file created one".into());
        }
        cx.add("loads_of_missing_paths", 1);
    }
    let h = hist(r, o);
    let res = c02_real_inner(cx, r, &h, &path).and_then(|_| c02_real_cut(cx, r, &path));
    let _ = std::fs::remove_file(&path);
    res
}

/// Loading a file that is cut short leaves what is there as it is.
fn c02_real_cut(cx: &mut Cx, r: &mut Rng, path: &std::path::Path) -> Res {
    let mut bytes = std::fs::read(path).unwrap();
    if bytes.is_empty() {
        return Ok(());
    }
    bytes.truncate(r.below(bytes.len()));
    std::fs::write(path, &bytes).unwrap();
    for _ in 0..2 {
        if let Err(e) = TdmsFile::load(path) {
            return Err(format!("a file cut to {} bytes does not load: {e:?}", bytes.len()));
        }
        if std::fs::read(path).unwrap() != bytes {
            return Err(format!("loading a file cut to {} bytes changed it", bytes.len()));
        }
    }
    cx.add("real_cut_loads", 1);
    Ok(())
}

fn c02_real_inner(cx: &mut Cx, r: &mut Rng, h: &Hist, path: &std::path::Path) -> Res {
    let mut content = Content::default();
    let mut f = TdmsFile::create(path).map_err(|e| format!("create failed: {e:?}"))?;
    if std::fs::metadata(path).unwrap().len() != 0 {
        return Err("creating at an existing path did not leave an empty file".into());
    }
    if f.list_groups().next().is_some() {
        return Err("a created file lists groups".into());
    }
    for s in &h.sessions {
        run_session(&mut f, h, s, &mut content, cx)?;
        real_check(&mut f, &content, cx, r)?;
        let before = std::fs::read(path).unwrap();
        {
            let mut g = TdmsFile::load(path).map_err(|e| format!("load failed: {e:?}"))?;
            real_check(&mut g, &content, cx, r)?;
            let sh = Shared::new(before.clone());
            let mut m = open(&sh).map_err(|e| format!("open from memory failed: {e:?}"))?;
            full_check(&mut m, &content, Depth { full: true, partial: 1 }, cx, r)?;
        }
        if std::fs::read(path).unwrap() != before {
            return Err("loading an existing path changed the file".into());
        }
        if s.reopen_after {
            f = TdmsFile::load(path).map_err(|e| format!("load failed: {e:?}"))?;
        }
        cx.add("real_file_reopenings", 1);
    }
    Ok(())
}

fn real_check(f: &mut TdmsFile<std::fs::File>, c0: &Content, cx: &mut Cx, r: &mut Rng) -> Res {
    let groups: std::collections::BTreeSet<&str> = c0.objs.keys().filter_map(|p| path_group(p)).collect();
    let got: Vec<String> = f.list_groups().map(String::from).collect();
    if !got.iter().map(|s| s.as_str()).collect::<std::collections::BTreeSet<_>>().eq(&groups) || got.len() != groups.len() {
        return Err(format!("groups listed {got:?}, expected {groups:?}"));
    }
    for (p, o) in &c0.objs {
        let pr = pp(p)?;
        for (n, v) in &o.props {
            match f.read_property(&pr, n) {
                Ok(Some(x)) if v.matches(x) => {}
                other => return Err(format!("property {n:?} of {p} reads as {other:?}, expected {v:?}")),
            }
        }
        match f.read_all_properties(&pr).map(|it| it.count()) {
            Some(n) if n == o.props.len() => {}
            _ => return Err(format!("properties of {p} are not listed exactly")),
        }
        if is_channel_path(p) {
            let c = cp(p)?;
            if f.channel_length(&c) != Some(o.len()) {
                return Err(format!("length of {p} is {:?}, expected {}", f.channel_length(&c), o.len()));
            }
            // seeks on real files take their time, so only some of very many channels are read
            if let Some(k) = o.kind()
                && (c0.objs.len() < 40 || r.below(c0.objs.len()) < 12)
            {
                crate::with_kind!(k, T => {
                    let sent = crate::view::sentinel::<T>(r);
                    let mut out = vec![sent.clone(); o.len() as usize + 1];
                    f.read_channel(&c, &mut out).map_err(|e| format!("read of {p} failed: {e:?}"))?;
                    crate::view::check_buf(&out, &sent, o.data(), k.size(), 0, &|| format!("read {p}"))?;
                });
                cx.add("samples_compared", o.len());
            }
        }
    }
    Ok(())
}

fn diff(got: &Content, want: &Content) -> String {
    for (p, o) in &want.objs {
        match got.objs.get(p) {
            None => return format!("object {p} is missing"),
            Some(g) if g.props != o.props => return format!("properties of {p} are {:?}, expected {:?}", g.props, o.props),
            Some(g) if g.runs != o.runs => {
                return format!(
                    "data of {p} is {:?}, expected {:?}",
                    g.runs.iter().map(|(k, d)| (k, d.len())).collect::<Vec<_>>(),
                    o.runs.iter().map(|(k, d)| (k, d.len())).collect::<Vec<_>>()
                );
            }
            _ => {}
        }
    }
    for p in got.objs.keys() {
        if !want.objs.contains_key(p) {
            return format!("object {p} was never written");
        }
    }
    "contents differ".into()
}

fn c03(cx: &mut Cx, r: &mut Rng) -> Res {
    cx.wide_channels = true;
    let mut o = big_opts(r);
    o.reopen_pct = 40;
    let (sh, mut content, mut h) = start(r, cx, o, false);
    mix_types(&mut h, r, cx);
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    for s in &h.sessions {
        run_session(&mut f, &h, s, &mut content, cx)?;
        let d = sh.with_bytes(decode).map_err(|e| format!("the file written is not valid TDMS: {e}"))?;
        cx.add("segments_decoded", d.segs.len() as u64);
        cx.add("segments_without_metadata", d.feats[0]);
        cx.add("segments_with_partial_lists", d.feats[1]);
        cx.add("segments_interleaved", d.feats[3]);
        if d.content != content {
            return Err(format!("an independent decoder sees other content: {}", diff(&d.content, &content)));
        }
        if s.reopen_after {
            f = open(&sh).map_err(|e| format!("reopen failed: {e:?}"))?;
        }
    }
    Ok(())
}

fn c07(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut o = big_opts(r);
    o.props_pct = *r.pick(&[50, 75]);
    o.reopen_pct = 40;
    o.max_n = 6;
    o.max_chans = *r.pick(&[1, 3, 6]);
    let (sh, mut content, mut h) = start(r, cx, o, true);
    for s in &mut h.sessions {
        for op in &mut s.ops {
            if let WOp::Props { props, .. } = op {
                if !props.is_empty() && r.chance(1, 6) {
                    let n = r.pick(props).0.clone();
                    props.push((n, Prop::random(r, false)));
                    cx.add("duplicate_names_in_one_call", 1);
                }
            }
        }
    }
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    for s in &h.sessions {
        run_session(&mut f, &h, s, &mut content, cx)?;
        let deep = Depth { full: true, partial: 0 };
        full_check(&mut f, &content, deep, cx, r)?;
        let mut g = open(&sh).map_err(|e| format!("reopen failed: {e:?}"))?;
        full_check(&mut g, &content, deep, cx, r).map_err(|e| format!("after reopening: {e}"))?;
        if s.reopen_after {
            f = g;
        }
    }
    Ok(())
}

fn c08(cx: &mut Cx, r: &mut Rng) -> Res {
    let b: Base;
    if r.coin() && cx.scale.is_none() {
        // many objects with closely related names, made by the library
        let sh = Shared::new(vec![]);
        let mut content = Content::default();
        let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
        let n = r.range(1, 12);
        let base = rand_name(r);
        let mut names = vec![base.clone(), format!("{base}x"), format!("{base}'"), format!("{base}/"), format!("{base}'/'"), format!("'{base}")];
        for _ in 0..3 {
            names.push(rand_name(r));
            names.push(near(r, &base));
        }
        {
            let mut w = f.writer().map_err(|e| format!("writer failed: {e:?}"))?;
            for _ in 0..n {
                let g = r.pick(&names).clone();
                let c = r.pick(&names).clone();
                match r.below(5) {
                    0 => {
                        let p = PropertyPath::group(&g);
                        w.write_properties(&p, &[("a", 1i32.into())]).map_err(|e| format!("write failed: {e:?}"))?;
                        content.obj(&format!("/'{}'", esc(&g))).props.insert("a".into(), Prop { code: 3, bytes: vec![1, 0, 0, 0] });
                    }
                    1 => {
                        let p = PropertyPath::channel(&g, &c);
                        w.write_properties(&p, &[]).map_err(|e| format!("write failed: {e:?}"))?;
                        content.obj(&format!("/'{}'/'{}'", esc(&g), esc(&c)));
                    }
                    2 => {
                        w.write_properties(&PropertyPath::file(), &[]).map_err(|e| format!("write failed: {e:?}"))?;
                        content.obj("/");
                    }
                    _ => {
                        let p = ChannelPath::new(&g, &c);
                        let v = r.next() as i32;
                        w.write_channels(&[&p], &[v], tedium::DataLayout::Interleaved).map_err(|e| format!("write failed: {e:?}"))?;
                        content.obj(&format!("/'{}'/'{}'", esc(&g), esc(&c))).push(Kind::I32, &v.to_le_bytes());
                    }
                }
            }
        }
        full_check(&mut f, &content, Depth { full: true, partial: 0 }, cx, r).map_err(|e| format!("writing handle: {e}"))?;
        b = Base { bytes: sh.bytes(), sh, content, segs: vec![], foreign: false };
    } else {
        let fo = ForeignOpts { max_chans: 14, max_n: 3, max_segs: 3, ..Default::default() };
        b = base_file(r, cx, HistOpts { max_n: 3, ..Default::default() }, &fo, 80);
    }
    for p in b.content.objs.keys() {
        cx.feat(p.as_bytes());
    }
    cx.nontrivial = b.content.objs.len() >= 2;
    let mut f = open(&b.sh).map_err(|e| format!("open failed: {e:?}"))?;
    full_check(&mut f, &b.content, Depth { full: true, partial: 0 }, cx, r)?;
    // use what is listed, exactly as listed
    let groups: Vec<String> = f.list_groups().map(String::from).collect();
    for g in &groups {
        let gp = pp(&format!("/'{g}'"))?;
        let chans: Vec<ChannelPath> = f.list_channels_in_group(&gp).collect();
        for c in chans {
            let Some(o) = b.content.objs.get(c.path()) else {
                return Err(format!("group {g:?} lists {c}, which is not an object of the file"));
            };
            if f.channel_length(&c) != Some(o.len()) {
                return Err(format!("listed path {c} has length {:?}, expected {}", f.channel_length(&c), o.len()));
            }
            if f.read_all_properties(c.as_ref()).map(|i| i.count()) != Some(o.props.len()) {
                return Err(format!("listed path {c} cannot be used to list its {} properties", o.props.len()));
            }
            if let Some(k) = o.kind()
                && o.runs.len() == 1
            {
                crate::with_kind!(k, T => {
                    let sent = crate::view::sentinel::<T>(r);
                    let mut out = vec![sent.clone(); o.len() as usize];
                    f.read_channel(&c, &mut out).map_err(|e| format!("listed path {c} cannot be read: {e:?}"))?;
                    crate::view::check_buf(&out, &sent, o.data(), k.size(), 0, &|| format!("read listed {c}"))?;
                });
            }
            cx.add("listed_paths_used", 1);
        }
    }
    Ok(())
}

/// Cut a valid file and see what is left, then go on writing.
fn c13(cx: &mut Cx, r: &mut Rng) -> Res {
    if r.chance(1, 4) {
        // one position in a file too large to exist
        let v = super::read::virtual_file(r, false);
        cx.nontrivial = true;
        return super::read::far_cut(v, cx, r);
    }
    let ho = HistOpts { max_chans: *r.pick(&[1, 2, 4]), max_sessions: 3, max_ops: 3, max_n: 8, plain_names: r.chance(2, 3), ..Default::default() };
    let fo = ForeignOpts {
        max_chans: 4,
        max_segs: 4,
        max_n: 5,
        strings: r.chance(1, 4),
        unequal: r.chance(1, 3),
        unfinished: r.chance(1, 4),
        plain_names: r.chance(2, 3),
        ..Default::default()
    };
    let b = base_file(r, cx, ho, &fo, 40);
    let n = b.bytes.len();
    let mut cuts: Vec<usize> = if n <= 420 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = vec![];
        for s in &b.segs {
            for base in [s.start, s.raw, s.end] {
                for d in -3i64..=3 {
                    v.push((base as i64 + d).clamp(0, n as i64) as usize);
                }
            }
            v.push(s.start as usize + r.range(1, 27));
            v.push(s.start as usize + 28);
        }
        for _ in 0..60 {
            v.push(r.below(n));
        }
        v.sort();
        v.dedup();
        r.shuffle(&mut v);
        v.truncate(160);
        v
    };
    cuts.retain(|c| *c < n);
    let fsig = crate::rng::hash_bytes(1, &b.bytes);
    for cut in cuts {
        cut_case(cx, r, &b, cut, fsig, 0).map_err(|e| format!("file of {n} bytes cut at {cut}: {e}"))?;
    }
    Ok(())
}

/// A file that was cut or damaged by a fault and then written to has segments
/// that follow each other to its end, for any reader.
pub fn well_formed(sh: &Shared, content: Option<&Content>, cx: &mut Cx) -> Res {
    let d = sh.with_bytes(crate::spec::decode_mended).map_err(|e| format!("the file is not valid TDMS: {e}"))?;
    if !d.partial
        && let Some(c) = content
    {
        // a property with a unit is the same value as one without, and any
        // other byte than 0 is true
        let plain = |c: &Content| {
            let mut c = c.clone();
            for p in c.objs.values_mut().flat_map(|o| o.props.values_mut()) {
                if matches!(p.code, 0x19..=0x1B) {
                    p.code -= 0x10;
                }
                if p.code == 0x21 {
                    p.bytes.iter_mut().for_each(|b| *b = u8::from(*b != 0));
                }
            }
            c
        };
        let (got, want) = (plain(&d.content), plain(c));
        if got != want {
            return Err(format!("an independent decoder sees other content: {}", diff(&got, &want)));
        }
    }
    cx.add("mended_files_decoded", 1);
    Ok(())
}

fn cut_case(cx: &mut Cx, r: &mut Rng, b: &Base, cut: usize, fsig: u64, depth: u32) -> Res {
    let complete = b.segs.iter().take_while(|s| s.end <= cut as u64).count();
    let low_end = if complete == 0 { 0 } else { b.segs[complete - 1].end };
    let high_end = b.segs.get(complete).map_or(low_end, |s| s.end);
    let low = decode(&b.bytes[..low_end as usize]).map_err(|e| format!("harness: {e}")).unwrap().content;
    let high = decode(&b.bytes[..high_end as usize]).map_err(|e| format!("harness: {e}")).unwrap().content;
    let sh = Shared::new(b.bytes[..cut].to_vec());
    cx.feat_n(fsig ^ cut as u64);
    cx.nontrivial = true;
    cx.add("cuts_examined", 1);
    match b.segs.get(complete) {
        Some(s) if (cut as u64) < s.start + 28 => cx.add("cuts_in_lead_in", 1),
        Some(s) if (cut as u64) < s.raw => cx.add("cuts_in_metadata", 1),
        _ => cx.add("cuts_in_raw_data", 1),
    }
    let mut f = open(&sh).map_err(|e| format!("does not open: {e:?}"))?;
    let seen = bracket(&mut f, &low, &high, &Cands::new(), cx, r)?;
    if sh.with_bytes(|x| x != &b.bytes[..cut]) {
        return Err("opening changed the file".into());
    }
    // go on writing
    if !r.chance(1, 3) {
        return Ok(());
    }
    let mut extra = writable_chans(&seen);
    r.shuffle(&mut extra);
    extra.truncate(3);
    let rounds = r.range(1, 3);
    let mut content = seen;
    for _ in 0..rounds {
        let max_n = *r.pick(&[2, 4, 30]);
        let mut h = hist_with(r, HistOpts { max_chans: 2, max_sessions: 1, max_ops: 4, max_n, ..Default::default() }, extra.clone());
        for c in &mut h.chans {
            if let Some(o) = content.objs.get(&c.path)
                && (o.strings > 0 || o.runs.len() > 1 || o.kind().is_some_and(|k| k != c.kind))
            {
                c.group.push_str("~w");
                c.path = format!("/'{}'/'{}'", esc(&c.group), esc(&c.name));
                if content.objs.contains_key(&c.path) {
                    return Ok(());
                }
            }
        }
        let t = hist_text(&h);
        run_session(&mut f, &h, &h.sessions[0], &mut content, cx)?;
        let deep = Depth { full: true, partial: 1 };
        full_check(&mut f, &content, deep, cx, r).map_err(|e| format!("after writing on ({t}): {e}"))?;
        f = open(&sh).map_err(|e| format!("after writing on ({t}): does not reopen: {e:?}"))?;
        full_check(&mut f, &content, deep, cx, r).map_err(|e| format!("after writing on ({t}) and reopening: {e}"))?;
        well_formed(&sh, Some(&content), cx).map_err(|e| format!("after writing on ({t}): {e}"))?;
        cx.add("continued_after_cut", 1);
    }
    drop(f);
    // the file that was cut and continued is cut once more
    if depth < 2 && r.chance(1, 4) {
        let bytes = sh.bytes();
        if let Ok(d) = decode(&bytes)
            && d.content == content
        {
            let b2 = Base { sh, bytes, content, segs: d.segs, foreign: b.foreign };
            let n = b2.bytes.len();
            for _ in 0..if n > 1 { 3 } else { 0 } {
                let from = cut.min(n - 1);
                let cut2 = match r.below(4) {
                    0 => r.below(n),
                    _ => from + r.below(n - from),
                };
                cut_case(cx, r, &b2, cut2, fsig.rotate_left(7) ^ cut as u64, depth + 1).map_err(|e| format!("continued and then cut again at {cut2} of {n}: {e}"))?;
                cx.add("cut_again_after_continuing", 1);
            }
        } else {
            cx.add("continued_files_with_partial_chunks", 1);
        }
    }
    Ok(())
}

const WRITE_ERRS: [ErrorKind; 6] =
    [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::TimedOut];

fn c14(cx: &mut Cx, r: &mut Rng) -> Res {
    if cx.scale.is_none() && r.chance(1, 3) {
        return super::chaos::chaos(cx, r);
    }
    // a file with content that is already safe
    let mut o = big_opts(r);
    o.max_sessions = 2;
    o.max_ops = o.max_ops.min(6);
    let (sh, mut base, h0) = start(r, cx, o, false);
    {
        let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
        let first = h0.sessions.len() / 2;
        for s in h0.sessions.iter().take(first) {
            run_session(&mut f, &h0, s, &mut base, cx)?;
        }
    }
    // sometimes what is there ends inside a segment
    let mut keep = sh.len() as usize;
    let mut sh = sh;
    let mut torn = false;
    if keep > 1
        && r.chance(1, 3)
        && let Ok(d) = sh.with_bytes(decode)
    {
        let cut = if r.coin() { r.range(1, keep - 1) } else { keep - r.range(1, (keep - 1).min(40)) };
        let done = d.segs.iter().take_while(|s| s.end <= cut as u64).count();
        keep = if done == 0 { 0 } else { d.segs[done - 1].end as usize };
        let high = d.segs.get(done).map_or(keep, |s| s.end as usize);
        let all = sh.bytes();
        let low = decode(&all[..keep]).map_err(|e| format!("harness: {e}")).unwrap().content;
        let high = decode(&all[..high]).map_err(|e| format!("harness: {e}")).unwrap().content;
        sh = Shared::new(all[..cut].to_vec());
        let mut f = open(&sh).map_err(|e| format!("cut at {cut}: does not open: {e:?}"))?;
        base = bracket(&mut f, &low, &high, &Cands::new(), cx, r)?;
        torn = true;
        cx.add("starts_on_a_cut_file", 1);
        // names that are not what the history takes them for
        for c in &h0.chans {
            if let Some(o) = base.objs.get(&c.path)
                && (o.strings > 0 || o.runs.len() > 1 || o.kind().is_some_and(|k| k != c.kind))
            {
                return Ok(());
            }
        }
    }
    let start_bytes = sh.bytes();
    // the operations that run on the faulty stream, ending with a sync
    let mut ops: Vec<WOp> = h0.sessions.iter().skip(h0.sessions.len() / 2).flat_map(|s| s.ops.clone()).collect();
    ops.push(WOp::Sync);
    cx.note(|| format!("on faulty stream: {}", ops.iter().map(|o| op_text(&h0, o)).collect::<Vec<_>>().join("; ")));

    // dry run, to know how many stream operations there are
    let dry = Shared::new(start_bytes.clone());
    let counts = {
        let mut f = open(&dry).map_err(|e| format!("open failed: {e:?}"))?;
        dry.disarm();
        run_ops_cb(&mut f, &h0, &ops, &mut |_, _, _| true).map_err(|e| format!("writer failed: {e:?}"))?;
        dry.counters()
    };

    let mut faults = Faults::default();
    let piecemeal = r.coin();
    if piecemeal {
        faults.short = Some(r.fork());
        if r.coin() {
            faults.eintr = Some(r.fork());
        }
    }
    let mode = if torn && r.chance(1, 3) { 5 } else { r.below(8) };
    match mode {
        0 | 1 => {} // no hard fault
        2..=4 => {
            let n = counts.1 * if piecemeal { 4 } else { 1 } + 2;
            faults.fail = Some((OpKind::Write, r.below64(n), *r.pick(&WRITE_ERRS)));
            faults.sticky = r.coin();
        }
        5 => {
            let total = dry.bytes_written();
            // the first bytes written are those that mend a cut file
            let to = if torn && r.coin() { total.min(28) } else { total };
            faults.write_budget = Some(r.below64(to + 1));
        }
        6 => {
            faults.fail = Some((OpKind::Flush, r.below64(counts.3 + 1), *r.pick(&WRITE_ERRS)));
            faults.sticky = r.coin();
        }
        _ => {
            faults.fail = Some((OpKind::Seek, r.below64(counts.2 + 1), *r.pick(&WRITE_ERRS)));
            faults.sticky = r.coin();
        }
    }
    cx.feat_n(mode as u64 * 2 + piecemeal as u64);
    cx.feat_n(faults.fail.map_or(0, |f| f.1));
    cx.note(|| format!("fault mode {mode} piecemeal {piecemeal} fail {:?} budget {:?} sticky {}", faults.fail, faults.write_budget, faults.sticky));

    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    sh.start_log();
    sh.arm(faults);
    let mut synced = base.clone();
    let mut tried = base.clone();
    let mut cands = Cands::new();
    let mut failed = false;
    let mut done = 0u64;
    let mut unflushed = false;
    let w = run_ops_cb(&mut f, &h0, &ops, &mut |_, op, res| {
        model_op(&h0, op, &mut tried);
        if let WOp::Props { path, props } = op {
            for (n, p) in props {
                cands.entry((path.path().to_string(), n.clone())).or_default().push(p.clone());
            }
        }
        match res {
            Ok(()) => {
                done += 1;
                if matches!(op, WOp::Sync) {
                    // everything so far must have left the library
                    let st = sh.0.borrow();
                    let last_w = st.log.iter().rposition(|e| matches!(e, Ev::Write { put, .. } if *put > 0));
                    let last_f = st.log.iter().rposition(|e| matches!(e, Ev::Flush));
                    if last_w.is_some() && last_f < last_w {
                        unflushed = true;
                    }
                    synced = tried.clone();
                }
                true
            }
            Err(_) => {
                failed = true;
                false
            }
        }
    });
    if w.is_err() {
        failed = true;
    }
    // the final operation is a sync, so no fault can hide in the drop
    let tripped = sh.tripped();
    let faults_seen = sh.0.borrow().total_faults;
    sh.disarm();
    sh.take_log();
    cx.add("faults_injected", faults_seen);
    cx.add("ops_succeeded_before_fault", done);
    cx.add("runs_with_reported_failure", failed as u64);
    if unflushed {
        return Err("sync returned success but the stream was not flushed after the last write".into());
    }
    if !failed && tripped {
        return Err("the stream failed, yet every call returned success".into());
    }
    if matches!(mode, 0 | 1) && failed {
        return Err("a call failed although the stream only transferred piecemeal or was interrupted".into());
    }
    let dump = sh.bytes();
    if dump.len() < keep || dump[..keep] != start_bytes[..keep] {
        return Err("bytes that were already in the file changed".into());
    }
    if !failed && sh.with_bytes(|x| dry.with_bytes(|y| x != y)) {
        return Err("all calls succeeded but the bytes differ from those of an undisturbed run".into());
    }
    cx.nontrivial = true;
    let mut g = open(&sh).map_err(|e| format!("the file left behind does not open: {e:?}"))?;
    let seen = bracket(&mut g, &synced, &tried, &cands, cx, r).map_err(|e| format!("fresh open after the fault: {e}"))?;
    if !failed && seen != synced {
        return Err("all calls succeeded but a fresh open shows less".into());
    }
    // and life goes on, on a fresh handle
    if r.chance(1, 3) {
        let mut content = seen;
        let ops2: Vec<WOp> = ops.iter().filter(|o| !matches!(o, WOp::Bad { .. })).cloned().collect();
        let s = Session { ops: ops2, reopen_after: true };
        run_session(&mut g, &h0, &s, &mut content, cx)?;
        full_check(&mut g, &content, Depth { full: true, partial: 0 }, cx, r).map_err(|e| format!("writing on after the fault: {e}"))?;
        let mut k = open(&sh).map_err(|e| format!("reopen after writing on failed: {e:?}"))?;
        full_check(&mut k, &content, Depth { full: true, partial: 0 }, cx, r).map_err(|e| format!("writing on after the fault, reopened: {e}"))?;
        well_formed(&sh, Some(&content), cx).map_err(|e| format!("writing on after the fault: {e}"))?;
        cx.add("continued_after_fault", 1);
    } else if failed && r.coin() {
        // the handle that saw the fault is used again: whatever it then
        // reports as written must not damage what was safe
        let mut cands2 = cands.clone();
        let mut tried2 = tried.clone();
        let _ = run_ops_cb(&mut f, &h0, &[ops.clone(), vec![WOp::Sync]].concat(), &mut |_, op, res| {
            model_op(&h0, op, &mut tried2);
            if let WOp::Props { path, props } = op {
                for (n, p) in props {
                    cands2.entry((path.path().to_string(), n.clone())).or_default().push(p.clone());
                }
            }
            res.is_ok()
        });
        drop(f);
        let mut k = open(&sh).map_err(|e| format!("the file does not open after the same handle went on: {e:?}"))?;
        // order of retried samples is up to what the first attempt left, so
        // only what was safe before is compared
        prefix_check(&mut k, &synced, cx, r).map_err(|e| format!("after the same handle went on writing: {e}"))?;
        cx.add("same_handle_continued", 1);
    }
    Ok(())
}

pub fn prefix_check(f: &mut File, low: &Content, cx: &mut Cx, r: &mut Rng) -> Res {
    for (p, o) in &low.objs {
        let path = pp(p)?;
        let Some(props) = crate::view::props_map(f, &path) else {
            return Err(format!("object {p} is gone"));
        };
        for n in o.props.keys() {
            if !props.iter().any(|x| x.0 == *n) {
                return Err(format!("property {n:?} of {p} is gone"));
            }
        }
        if let Some(k) = o.kind()
            && o.runs.len() == 1
            && o.strings == 0
        {
            let c = cp(p)?;
            if f.channel_length(&c).unwrap_or(0) < o.len() {
                return Err(format!("channel {p} lost samples"));
            }
            crate::view::read_check_kind(f, p, k, o.data(), 0, o.len() as usize, r)?;
            cx.add("samples_compared", o.len());
        }
    }
    Ok(())
}

/// Several handles on one file take turns; each appends after what is there,
/// whoever wrote it.
fn take_turns(cx: &mut Cx, r: &mut Rng) -> Res {
    let mut o = big_opts(r);
    o.max_sessions = 6;
    o.bad_pct = *r.pick(&[0, 10]);
    let (sh, mut content, h) = start(r, cx, o, false);
    let mut at = vec![];
    for _ in 0..r.range(2, 3) {
        at.push(open(&sh).map_err(|e| format!("open failed: {e:?}"))?);
    }
    let mut seen = vec![content.clone(); at.len()];
    for s in &h.sessions {
        let i = r.below(at.len());
        let before = sh.bytes();
        sh.take_min_write();
        cx.note(|| format!("handle {i}:"));
        run_session(&mut at[i], &h, s, &mut content, cx).map_err(|e| format!("handle {i}: {e}"))?;
        if sh.with_bytes(|b| b.len() < before.len() || b[..before.len()] != before[..]) {
            return Err(format!("a write through handle {i} changed bytes of segments that another handle had written"));
        }
        seen[i] = content.clone();
        full_check(&mut at[i], &content, Depth { full: true, partial: 1 }, cx, r).map_err(|e| format!("handle {i} after its turn: {e}"))?;
        // another handle goes on showing what it knew, or more
        let j = r.below(at.len());
        full_check(&mut at[j], &seen[j], Depth { full: true, partial: 0 }, cx, r).map_err(|e| format!("handle {j} after a turn of handle {i}: {e}"))?;
        let mut g = open(&sh).map_err(|e| format!("reopen failed after handles took turns: {e:?}"))?;
        full_check(&mut g, &content, Depth { full: true, partial: 0 }, cx, r).map_err(|e| format!("reopened after handles took turns: {e}"))?;
        cx.add("turns_between_handles", 1);
    }
    Ok(())
}

fn c16(cx: &mut Cx, r: &mut Rng) -> Res {
    cx.wide_channels = true;
    if r.chance(1, 6) {
        return take_turns(cx, r);
    }
    let mut o = big_opts(r);
    o.bad_pct = *r.pick(&[0, 20, 45]);
    o.reopen_pct = 30;
    let (sh, mut content, mut h) = start(r, cx, o, false);
    for s in &mut h.sessions {
        if o.bad_pct > 0 && r.chance(1, 4) {
            s.ops.retain(|o| matches!(o, WOp::Bad { .. }));
        }
    }
    let twin = Shared::new(sh.bytes());
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    let mut t = open(&twin).map_err(|e| format!("open failed: {e:?}"))?;
    for s in &h.sessions {
        let before = sh.bytes();
        sh.take_min_write();
        run_session(&mut f, &h, s, &mut content, cx)?;
        if let Some(p) = sh.take_min_write()
            && p < before.len() as u64
        {
            return Err(format!("a write went to byte {p} of a file that already had {} bytes", before.len()));
        }
        if sh.with_bytes(|b| b.len() < before.len() || b[..before.len()] != before[..]) {
            return Err("bytes already in the file changed".into());
        }
        if s.ops.iter().all(|o| matches!(o, WOp::Bad { .. } | WOp::Sync)) && sh.len() != before.len() as u64 {
            return Err("only refused writes were made, but the file grew".into());
        }
        // the same history without the refused calls gives the same bytes
        let clean = Session { ops: s.ops.iter().filter(|o| !matches!(o, WOp::Bad { .. })).cloned().collect(), reopen_after: false };
        let mut c2 = Content::default();
        run_session(&mut t, &h, &clean, &mut c2, &mut Cx::new(false, false))?;
        if sh.with_bytes(|a| twin.with_bytes(|b| a != b)) {
            return Err("a refused write changed what was written to the stream".into());
        }
        // reading never writes
        let (_, w0) = (0, sh.bytes_written());
        let now = sh.bytes();
        sh.disarm();
        full_check(&mut f, &content, Depth { full: true, partial: 1 }, cx, r)?;
        let mut g = open(&sh).map_err(|e| format!("reopen failed: {e:?}"))?;
        full_check(&mut g, &content, Depth { full: true, partial: 0 }, cx, r).map_err(|e| format!("reopened: {e}"))?;
        let (_, nw, _, nf) = sh.counters();
        if nw > 0 || nf > 0 || sh.bytes_written() != w0 || sh.bytes() != now {
            return Err(format!("reading made {nw} write and {nf} flush calls on the stream"));
        }
        cx.add("read_phases_without_writes", 1);
        if s.reopen_after {
            f = g;
            t = open(&twin).map_err(|e| format!("reopen failed: {e:?}"))?;
        }
    }
    Ok(())
}


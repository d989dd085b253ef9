//! Workloads at unusual scale: counts and sizes just beyond the widths of the
//! integers an implementation might use, and structures with very many parts.
//! They are rare (see `Cx::scale`) because each takes a good part of a second.

use crate::cx::Cx;
use crate::kinds::{ALL, CODE_STRING, Kind, NATURAL, Prop};
use crate::rng::Rng;
use crate::spec::{Content, Idx, Obj, Seg, encode};
use crate::workload::{Chan, Foreign, Hist, Session, WOp};
use tedium::{DataLayout, PropertyPath};

pub const STRIDE: u64 = 2039;

/// Checks whose generators use these workloads.
pub fn enabled(id: &str) -> bool {
    !matches!(id, "C09" | "C10" | "C12" | "C13" | "C18" | "C22")
}

/// Just above 2^16, now and then just at or below it.
fn wide(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 65_535,
        1 => 65_536,
        2 => 65_537,
        _ => r.range(65_538, 70_000),
    }
}

fn num_prop(v: usize) -> Prop {
    Prop { code: 7, bytes: (v as u32).to_le_bytes().to_vec() }
}

fn long_text(r: &mut Rng, n: usize) -> String {
    let unit = *r.pick(&["x", "ab/", "é", "中", "😀", "name "]);
    let mut s = unit.repeat(n / unit.len() + 1);
    s.push_str(&r.below(1000).to_string());
    s
}

fn chan(g: &str, c: &str, kind: Kind) -> Chan {
    Chan { group: g.into(), name: c.into(), kind, path: format!("/'{g}'/'{c}'") }
}

fn layout(r: &mut Rng) -> DataLayout {
    if r.coin() { DataLayout::Interleaved } else { DataLayout::Contigious }
}

pub const WRITE_VARIANTS: u64 = 9;

pub fn hist(variant: u64, r: &mut Rng, cx: &mut Cx) -> Hist {
    let mut chans: Vec<Chan> = (0..3).map(|i| chan("g", &format!("c{i}"), Kind::I32)).collect();
    let k = *r.pick(&NATURAL);
    chans.iter_mut().for_each(|c| c.kind = k);
    let mut ops: Vec<WOp> = vec![];
    let some_path = |r: &mut Rng| match r.below(3) {
        0 => PropertyPath::file(),
        1 => PropertyPath::group("g"),
        _ => PropertyPath::channel("g", "c1"),
    };
    match variant % WRITE_VARIANTS {
        // very many properties in one call
        0 => {
            let n = wide(r);
            let path = some_path(r);
            ops.push(WOp::Props { path: path.clone(), props: (0..n).map(|i| (format!("p{i}"), num_prop(i))).collect() });
            ops.push(WOp::Write { chs: vec![0, 1], kind: k, n: 3, layout: layout(r), seed: r.next() });
            ops.push(WOp::Props { path, props: vec![("p1".into(), num_prop(99)), ("last".into(), num_prop(7))] });
            cx.add("scale_many_properties", 1);
        }
        // very long names and texts
        1 => {
            let sizes = [65_535usize, 65_536, 70_000, 200_000, if r.chance(1, 3) { 17_000_000 } else { 1_100_000 }];
            for c in chans.iter_mut() {
                let n = *r.pick(&sizes[..4]);
                let name = long_text(r, n);
                *c = chan(if r.coin() { "g" } else { &name }, &format!("{name}~"), k);
            }
            let t = *r.pick(&sizes);
            let nm = *r.pick(&sizes[..4]);
            let path = if r.coin() { PropertyPath::group(&chans[0].group) } else { PropertyPath::channel(&chans[1].group, &chans[1].name) };
            ops.push(WOp::Props {
                path: path.clone(),
                props: vec![(long_text(r, nm), num_prop(1)), ("text".into(), Prop { code: CODE_STRING, bytes: long_text(r, t).into_bytes() }), ("after".into(), num_prop(2))],
            });
            ops.push(WOp::Write { chs: vec![0, 1, 2], kind: k, n: 2, layout: layout(r), seed: r.next() });
            ops.push(WOp::Write { chs: vec![2, 0], kind: k, n: 2, layout: layout(r), seed: r.next() });
            ops.push(WOp::Props { path, props: vec![("after".into(), num_prop(3))] });
            cx.add("scale_long_names", 1);
        }
        // very many equal writes
        2 => {
            let n = wide(r);
            let l = layout(r);
            let chs = if r.coin() { vec![0] } else { vec![0, 2] };
            for i in 0..n {
                ops.push(WOp::Write { chs: chs.clone(), kind: k, n: 1, layout: l, seed: i as u64 });
                if i % 20_000 == 7 {
                    ops.push(WOp::Props { path: some_path(r), props: vec![("at".into(), num_prop(i))] });
                }
            }
            cx.add("scale_many_writes", 1);
        }
        // very many different writes
        3 => {
            let n = wide(r);
            for i in 0..n {
                let l = if i & 1 == 0 { DataLayout::Interleaved } else { DataLayout::Contigious };
                let chs = match i % 5 {
                    0 => vec![0],
                    1 => vec![0, 1],
                    2 => vec![1, 0],
                    3 => vec![2],
                    _ => vec![0, 1, 2],
                };
                ops.push(WOp::Write { chs, kind: k, n: 1 + i % 2, layout: l, seed: i as u64 });
            }
            cx.add("scale_many_different_writes", 1);
        }
        // very many objects
        4 => {
            let n = wide(r);
            for i in 0..n {
                ops.push(WOp::Props { path: PropertyPath::channel("g", &format!("o{i}")), props: if i % 3 == 0 { vec![("i".into(), num_prop(i))] } else { vec![] } });
            }
            ops.push(WOp::Write { chs: vec![0, 1], kind: k, n: 2, layout: layout(r), seed: r.next() });
            cx.add("scale_many_objects", 1);
        }
        // very long writes
        5 | 6 => {
            let chs = *r.pick(&[&[0usize][..], &[0, 1], &[2, 0, 1]]);
            let n = match r.below(5) {
                0 => wide(r),
                1 | 2 => wide(r) / chs.len() + 1,
                3 => (1 << 20) + r.below(5),
                _ => (1 << 17) + r.below(5),
            };
            for i in 0..3u64 {
                let m = if i == 1 { n } else { r.range(1, 5) };
                ops.push(WOp::Write { chs: chs.to_vec(), kind: k, n: m, layout: layout(r), seed: r.next() });
            }
            ops.push(WOp::Write { chs: vec![chs[0]], kind: k, n: 3, layout: layout(r), seed: r.next() });
            if r.chance(1, 4) {
                // beyond 2^24 samples of one byte each
                let kb = *r.pick(&[Kind::U8, Kind::I8]);
                chans.push(chan("g", "bytes", kb));
                ops.push(WOp::Write { chs: vec![3], kind: kb, n: (1 << 24) + r.below(4), layout: layout(r), seed: r.next() });
                ops.push(WOp::Write { chs: vec![3], kind: kb, n: 2, layout: layout(r), seed: r.next() });
            }
            cx.add("scale_long_writes", 1);
        }
        // very many channels in one write
        7 => {
            let n = if cx.wide_channels && r.chance(2, 3) { wide(r) } else { r.range(1200, 2500) };
            chans = (0..n).map(|i| chan("g", &format!("c{i}"), k)).collect();
            let all: Vec<usize> = (0..n).collect();
            let l = layout(r);
            for i in 0..if n > 60_000 { 2 } else { 3 } {
                ops.push(WOp::Write { chs: all.clone(), kind: k, n: if n > 60_000 { 1 } else { r.range(1, 3) }, layout: if i == 2 { layout(r) } else { l }, seed: r.next() });
            }
            ops.push(WOp::Write { chs: all[1..].to_vec(), kind: k, n: 1, layout: l, seed: r.next() });
            ops.push(WOp::Write { chs: vec![n - 1], kind: k, n: 4, layout: l, seed: r.next() });
            cx.add("scale_many_channels", 1);
        }
        // very many property writes to one object
        _ => {
            let n = wide(r);
            let path = some_path(r);
            for i in 0..n {
                let name = if i % 4 == 0 { format!("p{}", i % 50) } else { "same".to_string() };
                ops.push(WOp::Props { path: path.clone(), props: vec![(name, num_prop(i))] });
            }
            ops.push(WOp::Write { chs: vec![0], kind: k, n: 2, layout: layout(r), seed: r.next() });
            cx.add("scale_many_property_writes", 1);
        }
    }
    cx.feat_n(0xBEEF + variant % WRITE_VARIANTS);
    cx.feat_n(ops.len() as u64);
    let after = vec![
        WOp::Write { chs: vec![0], kind: chans[0].kind, n: 2, layout: layout(r), seed: r.next() },
        WOp::Sync,
        WOp::Write { chs: vec![0], kind: chans[0].kind, n: 2, layout: layout(r), seed: r.next() },
    ];
    let again = r.coin();
    Hist { chans, sessions: vec![Session { ops, reopen_after: again }, Session { ops: after, reopen_after: false }] }
}

pub const FOREIGN_VARIANTS: u64 = 10;

/// Append the samples of one chunk to the raw bytes and the content.
fn chunk(s: &mut Seg, lay: &[(String, Kind, usize)], content: &mut Content, r: &mut Rng) {
    let per: Vec<Vec<u8>> = lay.iter().map(|(_, k, n)| k.samples(r, *n, true)).collect();
    for ((p, k, _), d) in lay.iter().zip(&per) {
        content.obj(p).push(*k, d);
    }
    let be = s.be;
    let mut put = |k: Kind, x: &[u8]| {
        if be {
            s.raw.extend_from_slice(&k.swap(x));
        } else {
            s.raw.extend_from_slice(x);
        }
    };
    if s.interleaved {
        for j in 0..lay[0].2 {
            for ((_, k, _), d) in lay.iter().zip(&per) {
                put(*k, &d[j * k.size()..(j + 1) * k.size()]);
            }
        }
    } else {
        for ((_, k, _), d) in lay.iter().zip(&per) {
            put(*k, d);
        }
    }
}

fn objs(lay: &[(String, Kind, usize)]) -> Vec<Obj> {
    lay.iter().map(|(p, k, n)| Obj { path: p.clone(), idx: Idx::Full { code: k.code(), n: *n as u64, total: None }, props: vec![] }).collect()
}

pub fn foreign(variant: u64, r: &mut Rng, kinds: &[Kind], cx: &mut Cx) -> Foreign {
    let kinds = if kinds.is_empty() { &ALL[..] } else { kinds };
    let mut content = Content::default();
    let mut segs: Vec<Seg> = vec![];
    let mut base = Seg { be: r.coin(), interleaved: r.coin(), raw_flag: true, ..Default::default() };
    let nch = r.range(1, 3);
    let mut lay: Vec<(String, Kind, usize)> = (0..nch).map(|i| (format!("/'g'/'c{i}'"), *r.pick(kinds), 1)).collect();
    let n = wide(r);
    match variant % FOREIGN_VARIANTS {
        // very many chunks
        0 | 1 => {
            base.interleaved = variant.is_multiple_of(2);
            let m = r.range(1, 2);
            lay.iter_mut().for_each(|l| l.2 = m);
            if !base.interleaved && r.coin() {
                lay[0].2 = 3;
            }
            base.meta = Some(objs(&lay));
            for _ in 0..n {
                chunk(&mut base, &lay, &mut content, r);
            }
            segs.push(base);
            cx.add("scale_many_chunks", 1);
        }
        // very many objects in one segment
        2 => {
            let mut v = objs(&lay);
            for i in 0..n {
                let p = format!("/'g'/'o{i}'");
                let props = if i % 5 == 0 { vec![("i".to_string(), num_prop(i))] } else { vec![] };
                v.push(Obj { path: p, idx: Idx::None, props });
            }
            base.meta = Some(v);
            chunk(&mut base, &lay, &mut content, r);
            segs.push(base);
            cx.add("scale_many_objects", 1);
        }
        // very many properties of one object
        3 => {
            let props = (0..n).map(|i| (format!("p{i}"), num_prop(i))).collect();
            let mut v = objs(&lay);
            v.insert(0, Obj { path: r.pick(&["/", "/'g'", "/'g'/'z'"]).to_string(), idx: Idx::None, props });
            base.meta = Some(v);
            chunk(&mut base, &lay, &mut content, r);
            segs.push(base);
            cx.add("scale_many_properties", 1);
        }
        // very long names and texts
        4 => {
            for l in lay.iter_mut() {
                let k = *r.pick(&[65_535usize, 65_536, 100_000]);
                l.0 = format!("/'g'/'{}{}'", long_text(r, k), l.0.len());
            }
            lay.sort();
            lay.dedup_by(|a, b| a.0 == b.0);
            let mut v = objs(&lay);
            let (a, b) = (*r.pick(&[65_536usize, 70_000]), *r.pick(&[65_536usize, 1_000_000]));
            v[0].props.push((long_text(r, a), num_prop(1)));
            v[0].props.push(("text".into(), Prop { code: CODE_STRING, bytes: long_text(r, b).into_bytes() }));
            base.meta = Some(v);
            chunk(&mut base, &lay, &mut content, r);
            segs.push(base);
            cx.add("scale_long_names", 1);
        }
        // very many segments without metadata
        5 | 6 => {
            base.meta = Some(objs(&lay));
            for i in 0..n {
                let mut s = base.clone();
                if i > 0 {
                    s.meta = None;
                    s.newlist = false;
                }
                chunk(&mut s, &lay, &mut content, r);
                segs.push(s);
            }
            cx.add("scale_many_segments", 1);
        }
        // very many segments with metadata
        7 => {
            for i in 0..n {
                let mut s = base.clone();
                s.be = r.coin();
                s.interleaved = r.coin();
                s.newlist = true;
                let use_: Vec<_> = if i == 0 { lay.clone() } else { lay.iter().filter(|_| r.chance(2, 3)).cloned().collect() };
                let mut v = objs(&use_);
                if i > 0 {
                    for o in v.iter_mut() {
                        if r.coin() {
                            o.idx = Idx::Match;
                        }
                    }
                }
                s.meta = Some(v);
                if use_.is_empty() {
                    s.raw_flag = false;
                } else {
                    chunk(&mut s, &use_, &mut content, r);
                }
                segs.push(s);
            }
            cx.add("scale_many_segments", 1);
        }
        // very long chunks
        8 => {
            let m = match r.below(3) {
                0 => n,
                1 => 200_000 + r.below(9),
                _ => (1 << 20) + r.below(3),
            };
            lay.iter_mut().for_each(|l| l.2 = m);
            base.meta = Some(objs(&lay));
            for _ in 0..r.range(1, 2) {
                chunk(&mut base, &lay, &mut content, r);
            }
            let mut s = Seg { raw: vec![], meta: None, newlist: false, ..base.clone() };
            chunk(&mut s, &lay, &mut content, r);
            segs.push(base);
            segs.push(s);
            cx.add("scale_long_chunks", 1);
        }
        // very many channels
        _ => {
            let m = r.range(1, 3);
            lay = (0..r.range(1500, 2500)).map(|i| (format!("/'g'/'c{i}'"), *r.pick(kinds), m)).collect();
            base.meta = Some(objs(&lay));
            for _ in 0..r.range(1, 2) {
                chunk(&mut base, &lay, &mut content, r);
            }
            let mut s = Seg { raw: vec![], meta: None, newlist: false, ..base.clone() };
            chunk(&mut s, &lay, &mut content, r);
            segs.push(base);
            segs.push(s);
            cx.add("scale_many_channels", 1);
        }
    }
    for s in &segs {
        for o in s.meta.iter().flatten() {
            let e = content.obj(&o.path);
            for (n, p) in &o.props {
                e.props.insert(n.clone(), p.clone());
            }
        }
    }
    cx.feat_n(0xF00D + variant % FOREIGN_VARIANTS);
    cx.feat_n(n as u64);
    cx.nontrivial = true;
    let (bytes, pos) = encode(&segs);
    Foreign { segs, content, pos, bytes }
}

pub const HOSTILE_VARIANTS: u64 = 9;

/// Large files whose structure invites work that grows faster than their size.
pub fn hostile(variant: u64, r: &mut Rng, cx: &mut Cx) -> Vec<u8> {
    let n = r.range(30_000, 60_000);
    let be = r.coin();
    let name = |i: usize| format!("/'g'/'c{i}'");
    let full = |i: usize| Obj { path: name(i), idx: Idx::Full { code: Kind::U8.code(), n: 1, total: None }, props: vec![] };
    let with = |i: usize, idx: Idx| Obj { path: name(i), idx, props: vec![] };
    let first = Seg {
        be,
        interleaved: r.coin(),
        raw_flag: true,
        newlist: true,
        meta: Some((0..n).map(full).collect()),
        raw: vec![7; n],
        ..Default::default()
    };
    let next = Seg { be, raw_flag: true, newlist: false, meta: None, raw: vec![9; n], ..Default::default() };
    let mut segs = vec![];
    match variant % HOSTILE_VARIANTS {
        // the whole list again
        0 => {
            segs.push(first);
            segs.push(Seg { meta: Some((0..n).rev().map(|i| with(i, Idx::Match)).collect()), ..next });
        }
        // every object leaves
        1 => {
            segs.push(first);
            segs.push(Seg { meta: Some((0..n).map(|i| with(i, Idx::None)).collect()), raw: vec![], raw_flag: false, ..next });
        }
        // half of the objects leave, the others are described again
        2 => {
            segs.push(first);
            let meta = (0..n).map(|i| if i % 2 == 0 { with(i, Idx::None) } else { full(i) }).collect();
            segs.push(Seg { meta: Some(meta), raw: vec![1; n / 2], ..next });
        }
        // one name over and over
        3 => {
            let meta = (0..n).map(|i| if i % 2 == 0 { full(0) } else { with(0, Idx::Match) }).collect();
            segs.push(Seg { meta: Some(meta), raw: vec![1; 64], ..first });
        }
        // one property over and over, and very many of them
        4 => {
            let mut o = full(0);
            o.props = (0..n).map(|i| (format!("p{}", if i % 2 == 0 { 0 } else { i }), num_prop(i))).collect();
            segs.push(Seg { meta: Some(vec![o]), raw: vec![1; 64], ..first });
        }
        // empty segments only
        5 => {
            segs.extend((0..n).map(|_| Seg { raw_flag: false, meta: None, raw: vec![], newlist: r.coin(), ..next.clone() }));
        }
        // one object joins in each segment
        6 => {
            let m = 1500;
            segs.extend((0..m).map(|i| Seg { meta: Some(vec![full(i)]), raw: vec![1; i + 1], ..next.clone() }));
        }
        // every object in a group of its own
        7 => {
            let meta = (0..2000).map(|i| Obj { path: format!("/'g{i}'/'c'"), ..full(i) }).collect();
            segs.push(Seg { meta: Some(meta), raw: vec![3; 2000], ..first });
        }
        // very long names that differ at their end
        _ => {
            let long = "n".repeat(60_000);
            let meta = (0..60).map(|i| Obj { path: format!("/'g'/'{long}{i}'"), ..full(i) }).collect();
            segs.push(Seg { meta: Some(meta), raw: vec![3; 60], ..first });
        }
    }
    cx.feat_n(0xBAD0 + variant % HOSTILE_VARIANTS);
    cx.add("scale_hostile", 1);
    let (mut bytes, _) = encode(&segs);
    if r.coin() {
        for _ in 0..r.range(1, 3) {
            let at = r.below(bytes.len());
            bytes[at] ^= 1 << r.below(8);
        }
    }
    bytes
}

//! C11 C12: hostile bytes and undefined behaviour.

use super::{Check, Extra};
use crate::alloc;
use crate::cx::{Cx, Res};
use crate::disk::{Disk, Faults, OpKind, Shared};
use crate::kinds::{ALL, CODE_STRING, NATURAL, Prop};
use crate::rng::Rng;
use crate::spec::{Idx, Obj, Seg, encode};
use crate::view::{File, sentinel};
use crate::with_kind;
use crate::workload::*;
use std::io::ErrorKind;
use std::process::{Command, Stdio};
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsFile, TdmsStorageType};

pub static CHECKS: &[Check] = &[
    Check {
        id: "C11",
        case: c11,
        quick: 80000,
        thorough: 3000000,
        method: "field-aware mutation of valid files and structured hostile files, every public call, with panic, abort, allocation, I/O-step and CPU monitors",
        rule: "distinct hostile files (by bytes) on which every kind of call was made",
        assumptions: &["Allocations above 256 MiB are refused, as a machine with little memory would.", "A stream refuses offsets beyond 2^63-1, as operating systems do."],
        extra: None,
    },
    Check {
        id: "C12",
        case: c12,
        quick: 20000,
        thorough: 600000,
        method: "the same workload runs natively, under Miri and under valgrind with a stream that inspects its buffers",
        rule: "distinct workloads (files, calls, transfer patterns)",
        assumptions: &["Miri and valgrind report undefined behaviour that is executed; code not reached by the workload is not judged."],
        extra: Some(sanitizers),
    },
];

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU seconds used by this thread.
pub fn thread_cpu() -> f64 {
    if cfg!(miri) {
        return 0.0;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

// ---------------------------------------------------------------- mutation

/// Offsets and widths of the fields a lenient walk finds.
fn fields(b: &[u8]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut at = 0usize;
    let u32_at = |b: &[u8], p: usize, be: bool| -> Option<u32> {
        let s: [u8; 4] = b.get(p..p + 4)?.try_into().ok()?;
        Some(if be { u32::from_be_bytes(s) } else { u32::from_le_bytes(s) })
    };
    let u64_at = |b: &[u8], p: usize, be: bool| -> Option<u64> {
        let s: [u8; 8] = b.get(p..p + 8)?.try_into().ok()?;
        Some(if be { u64::from_be_bytes(s) } else { u64::from_le_bytes(s) })
    };
    while b.len() >= at + 28 && &b[at..at + 4] == b"TDSm" && out.len() < 4000 {
        let toc = u32_at(b, at + 4, false).unwrap();
        let be = toc & 0x40 != 0;
        out.extend([(at + 4, 4), (at + 4, 1), (at + 8, 4), (at + 12, 8), (at + 20, 8)]);
        let next = u64_at(b, at + 12, be).unwrap();
        if toc & 2 != 0 {
            let mut p = at + 28;
            let mut walk = || -> Option<()> {
                let n = u32_at(b, p, be)?;
                out.push((p, 4));
                p += 4;
                for _ in 0..n.min(600) {
                    let l = u32_at(b, p, be)? as usize;
                    out.push((p, 4));
                    if l > 0 && l < 64 {
                        out.push((p + 4, l));
                    }
                    p = p.checked_add(4 + l)?;
                    let h = u32_at(b, p, be)?;
                    out.push((p, 4));
                    p += 4;
                    if h != 0 && h != u32::MAX {
                        out.extend([(p, 4), (p + 4, 4), (p + 8, 8)]);
                        let code = u32_at(b, p, be)?;
                        p += 16;
                        if code == CODE_STRING {
                            out.push((p, 8));
                            p += 8;
                        }
                    }
                    let np = u32_at(b, p, be)?;
                    out.push((p, 4));
                    p += 4;
                    for _ in 0..np.min(100) {
                        let l = u32_at(b, p, be)? as usize;
                        out.push((p, 4));
                        p = p.checked_add(4 + l)?;
                        let c = u32_at(b, p, be)?;
                        out.push((p, 4));
                        p += 4;
                        if c == CODE_STRING {
                            let l = u32_at(b, p, be)? as usize;
                            out.push((p, 4));
                            if l > 0 && l < 64 {
                                out.push((p + 4, l));
                            }
                            p = p.checked_add(4 + l)?;
                        } else {
                            p += crate::kinds::Kind::from_code(c).map_or(0, |k| k.size());
                        }
                    }
                }
                Some(())
            };
            walk();
        }
        match (at as u64 + 28).checked_add(next) {
            Some(n) if n <= b.len() as u64 => at = n as usize,
            _ => break,
        }
    }
    out
}

fn interesting(r: &mut Rng, old: u64, len: u64, width: usize) -> u64 {
    let v = match r.below(22) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - r.below64(40),
        4 => 1 << r.below(64),
        5 => (1u64 << r.below(64)).wrapping_sub(1),
        6 => len,
        7 => len.wrapping_sub(r.below64(60)),
        8 => len + r.below64(60),
        9 => old.wrapping_add(1),
        10 => old.wrapping_sub(1),
        11 => old.wrapping_mul(2),
        12 => old / 2,
        13 => i64::MAX as u64 - r.below64(40),
        14 => (i64::MAX as u64).wrapping_add(1 + r.below64(40)),
        15 => u64::MAX / *r.pick(&[2u64, 3, 4, 8, 10, 16]) + r.below64(3),
        16 => old ^ (1 << r.below(width * 8)),
        17 => *r.pick(&[0x6912_0000u64, 0x6913_0000, 0x1269, 0x1369, 0x20, 0x21, 0x44, 0x19, 0x0008_000c, 0x0010_000d, 0xFFFF_FFFF]),
        18 => u32::MAX as u64 + r.below64(3),
        19 => r.below64(300),
        20 => r.next(),
        _ => old.wrapping_add(r.below64(64)).wrapping_sub(32),
    };
    if width == 4 && r.chance(1, 6) { v >> 32 } else { v }
}

pub fn mutate(b: &mut Vec<u8>, r: &mut Rng) {
    let n = *r.pick(&[1, 1, 1, 2, 3, 6]);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        match r.below(20) {
            // a field gets a hostile value
            0..=12 => {
                let f = fields(b);
                if f.is_empty() {
                    let i = r.below(b.len());
                    b[i] = r.next() as u8;
                    continue;
                }
                // prefer early fields when there are very many
                let (at, w) = *r.pick(&f);
                if at + w > b.len() {
                    continue;
                }
                match w {
                    4 | 8 => {
                        let be = r.chance(1, 4);
                        let mut x = [0u8; 8];
                        x[..w].copy_from_slice(&b[at..at + w]);
                        let old = if be && w == 8 { u64::from_be_bytes(x) } else { u64::from_le_bytes(x) };
                        let v = interesting(r, old, b.len() as u64, w);
                        if w == 8 {
                            b[at..at + 8].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
                        } else {
                            let v = v as u32;
                            b[at..at + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
                        }
                    }
                    _ => {
                        let i = at + r.below(w);
                        b[i] = *r.pick(&[0, 0xFF, 0x27, 0x2F, 0x80, 0xC0, r.clone().next() as u8, b[i] ^ 1, b[i] ^ 2, b[i] ^ 4, b[i] ^ 8, b[i] ^ 0x20, b[i] ^ 0x40, b[i] ^ 0x80]);
                    }
                }
            }
            13 => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            14 => {
                let i = r.below(b.len());
                b[i] = r.next() as u8;
            }
            15 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            16 => {
                let i = r.below(b.len());
                let n = r.below((b.len() - i).min(64)) + 1;
                b.drain(i..i + n);
            }
            17 => {
                let i = r.below(b.len());
                let n = (r.below((b.len() - i).min(200)) + 1).min(b.len() - i);
                let part = b[i..i + n].to_vec();
                let at = r.below(b.len() + 1);
                b.splice(at..at, part);
            }
            18 => {
                let at = r.below(b.len() + 1);
                let k = r.below(40);
                let ins = r.bytes(k);
                b.splice(at..at, ins);
            }
            // two fields swap
            _ => {
                let f = fields(b);
                if f.len() > 1 {
                    let (a, wa) = *r.pick(&f);
                    let (c, wc) = *r.pick(&f);
                    let w = wa.min(wc);
                    if a + w <= b.len() && c + w <= b.len() {
                        for i in 0..w {
                            b.swap(a + i, c + i);
                        }
                    }
                }
            }
        }
    }
}

/// Files whose structure is well formed but whose numbers are not.
fn hostile_segs(r: &mut Rng) -> Vec<u8> {
    let nseg = r.range(1, 6);
    let paths = ["/'g'/'a'", "/'g'/'b'", "/'g'/'c'", "/'g'", "/", "/'g'/'a'/'x'", "'", "/'", "", "/'g/'", "/'\"'/'d'"];
    let mut segs = vec![];
    let kind = *r.pick(&ALL);
    for _ in 0..nseg {
        let mut s = Seg { be: r.chance(1, 3), interleaved: r.coin(), newlist: r.chance(2, 3), raw_flag: r.chance(4, 5), daqmx_flag: r.chance(1, 30), ..Default::default() };
        if r.chance(4, 5) {
            let mut objs = vec![];
            for i in 0..r.below(4) {
                let path = if r.chance(4, 5) { paths[i.min(2)] } else { *r.pick(&paths) };
                let n = match r.below(8) {
                    0 => 0,
                    1 => interesting(r, 1, 100, 8),
                    2 => 1 << r.range(20, 63),
                    3 => u64::MAX / 8 + r.below64(4),
                    _ => r.below64(6),
                };
                let idx = match r.below(10) {
                    0 => Idx::None,
                    1 | 2 => Idx::Match,
                    _ => {
                        let code = match r.below(12) {
                            0 => CODE_STRING,
                            1 => *r.pick(&[0u32, 0x4F, 0xFFFF_FFFF, 12, 13, 77]),
                            _ => if r.chance(3, 4) { kind.code() } else { r.pick(&ALL).code() },
                        };
                        Idx::Full { code, n, total: if code == CODE_STRING { Some(interesting(r, n, 100, 8)) } else { None } }
                    }
                };
                let props = if r.chance(1, 4) { rand_props(r, true, 3) } else { vec![] };
                objs.push(Obj { path: path.to_string(), idx, props });
            }
            s.meta = Some(objs);
        }
        let n = r.below(100);
        s.raw = r.bytes(n);
        if r.chance(1, 6) {
            s.raw_virtual = Some(interesting(r, n as u64, 200, 8) >> 1);
        }
        if r.chance(1, 20) {
            s.unfinished = true;
        }
        segs.push(s);
    }
    let mut out = vec![];
    for s in &segs {
        out.extend_from_slice(&s.head().0);
        out.extend_from_slice(&s.raw);
    }
    let _ = encode;
    out
}

pub fn hostile_bytes(r: &mut Rng, cx: &mut Cx, small: bool) -> Vec<u8> {
    let x = r.below(100);
    let mut b = if x < 30 {
        let h = hist(r, HistOpts { max_n: if small { 4 } else { 20 }, max_sessions: 3, max_chans: if small { 3 } else { 6 }, plain_names: small, ..Default::default() });
        let mut quiet = Cx::new(false, false);
        quiet.miri = cx.miri;
        match build(&h, &mut quiet) {
            Ok((sh, _)) => sh.bytes(),
            Err(_) => hostile_segs(r),
        }
    } else if x < 65 {
        let fo = ForeignOpts {
            unequal: r.coin(),
            max_segs: if small { 3 } else { 6 },
            max_n: if small { 4 } else { 12 },
            max_chans: if small { 3 } else { 5 },
            plain_names: small,
            ..Default::default()
        };
        let mut quiet = Cx::new(false, false);
        foreign(r, &fo, &mut quiet).bytes
    } else if x < 95 {
        hostile_segs(r)
    } else {
        let mut b = b"TDSm".to_vec();
        let n = r.below(200);
        b.extend_from_slice(&r.bytes(n));
        if b.len() > 8 && r.coin() {
            b[5] = 0;
            b[6] = 0;
            b[7] = 0;
        }
        b
    };
    if x < 65 || r.coin() {
        mutate(&mut b, r);
    }
    b
}

// ----------------------------------------------------------------------- C11

/// Strings handed out must be valid UTF-8.
fn text_ok(s: &str, what: &str) -> Res {
    if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
        return Err(format!("{what} is handed out as a string but is not UTF-8: {:02x?}", &s.as_bytes()[..s.len().min(20)]));
    }
    Ok(())
}

fn start_pos(r: &mut Rng, len: u64) -> u64 {
    match r.below(12) {
        0..=4 => r.below64(len.saturating_add(2).min(1000)),
        5 => len.wrapping_sub(r.below64(3)),
        6 => len.saturating_add(r.below64(3)),
        7 => u64::MAX - r.below64(20),
        8 => i64::MAX as u64 - 10 + r.below64(20),
        9 => 1 << r.below(64),
        10 => u64::MAX / *r.pick(&[2u64, 4, 8, 10, 16]) + r.below64(3),
        _ => r.below64(len.max(1)),
    }
}

struct Guard<'a> {
    sh: &'a Shared,
    limit_ops: u64,
    limit_cpu: f64,
}
impl Guard<'_> {
    fn run<T>(&self, what: &str, extra: u64, cx: &mut Cx, f: impl FnOnce() -> T) -> Result<T, String> {
        self.sh.set_budget(self.limit_ops + extra * 8);
        let t = thread_cpu();
        cx.note(|| format!("    {what}"));
        let v = f();
        self.sh.set_budget(u64::MAX);
        let t = thread_cpu() - t;
        if t > self.limit_cpu {
            return Err(format!("{what} took {t:.1} CPU seconds on a file of {} bytes", self.sh.len()));
        }
        cx.add("calls", 1);
        Ok(v)
    }
}

fn read_all(f: &mut File, g: &Guard, r: &mut Rng, cx: &mut Cx, reads: usize) -> Res {
    let groups: Vec<String> = g.run("list_groups", 0, cx, || f.list_groups().map(|s| s.to_string()).collect())?;
    let mut chans: Vec<ChannelPath> = vec![];
    for n in &groups {
        text_ok(n, "a group name")?;
        if let Ok(p) = PropertyPath::try_from(format!("/'{n}'").as_str()) {
            let l: Vec<ChannelPath> = g.run("list_channels", 0, cx, || f.list_channels_in_group(&p).collect())?;
            let _ = g.run("properties", 0, cx, || f.read_all_properties(&p).map(|i| i.count()))?;
            chans.extend(l);
        }
        if !cx.miri {
            let _ = g.run("list_channels", 0, cx, || f.list_channels_in_group(&PropertyPath::group(n)).count())?;
        }
    }
    if !cx.miri {
        let _ = g.run("list_channels", 0, cx, || f.list_channels_in_group(&PropertyPath::file()).count())?;
    }
    chans.push(ChannelPath::new("g", "a"));
    chans.push(ChannelPath::new("g", "b"));
    chans.push(ChannelPath::new("no", "where"));
    if cx.miri {
        chans.swap_remove(r.below(chans.len() - 1));
        chans.truncate(3);
    }
    chans.truncate(12);
    for c in &chans {
        text_ok(c.path(), "a channel path")?;
        text_ok(c.channel_name(), "a channel name")?;
        let props = g.run("properties", 0, cx, || {
            f.read_all_properties(c.as_ref()).map(|i| i.map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>()).unwrap_or_default()
        })?;
        for (n, v) in &props {
            text_ok(n, "a property name")?;
            if let PropertyValue::String(s) = v {
                text_ok(s, "a property value")?;
            }
        }
        let _ = g.run("property", 0, cx, || f.read_property(c.as_ref(), "p").is_ok())?;
        let len = g.run("channel_length", 0, cx, || f.channel_length(c))?.unwrap_or(0);
        let _ = g.run("read String", 0, cx, || {
            let mut out = vec![String::new(); 2];
            f.read_channel(c, &mut out).is_ok()
        })?;
        for i in 0..reads {
            let k = *r.pick(&NATURAL);
            let start = start_pos(r, len);
            let n = if i == 0 { len.min(40) as usize } else { *r.pick(&[0, 1, 2, 7, 33]) };
            with_kind!(k, T => {
                let mut out = vec![sentinel::<T>(r); n];
                let what = format!("read {c} as {k:?} from {start} x{n}");
                if g.run(&what, (n * 16) as u64, cx, || f.read_channel_from(c, start, &mut out).is_ok())? {
                    cx.add("reads_delivered", 1);
                }
            });
        }
    }
    // the stored type is likely one of few: try all of them on one channel
    let c = r.pick(&chans).clone();
    for k in NATURAL {
        if cx.miri && !r.chance(1, 4) {
            continue;
        }
        with_kind!(k, T => {
            let mut out = vec![sentinel::<T>(r); 9];
            let _ = g.run("read each type", 144, cx, || f.read_channel(&c, &mut out).is_ok())?;
        });
    }
    for _ in 0..reads {
        let m = r.range(0, 4);
        let list: Vec<ChannelPath> = (0..m).map(|_| r.pick(&chans).clone()).collect();
        let k = *r.pick(&NATURAL);
        let start = start_pos(r, 9);
        with_kind!(k, T => {
            let mut bufs: Vec<Vec<T>> = list.iter().map(|_| { let n = r.below(12); vec![sentinel::<T>(r); n] }).collect();
            // the number of buffers need not be that of the channels
            match r.below(12) {
                0 => { bufs.pop(); cx.add("reads_with_too_few_buffers", 1); }
                1 => { bufs.push(vec![sentinel::<T>(r); 3]); cx.add("reads_with_too_many_buffers", 1); }
                _ => {}
            }
            let mut refs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
            let what = format!("read_channels {m} as {k:?} from {start}");
            let _ = g.run(&what, 800, cx, || f.read_channels_from(&list, start, &mut refs).is_ok())?;
            let _ = g.run(&what, 800, cx, || f.read_channels(&list, &mut refs).is_ok())?;
        });
    }
    Ok(())
}

fn append(f: &mut File, g: &Guard, r: &mut Rng, cx: &mut Cx) -> Res {
    let k = *r.pick(&NATURAL);
    let chs: Vec<ChannelPath> = match r.below(3) {
        0 => vec![ChannelPath::new("g", "a")],
        1 => vec![ChannelPath::new("g", "a"), ChannelPath::new("g", "b")],
        _ => vec![ChannelPath::new("new", "c")],
    };
    let seed = r.next();
    let n = r.range(0, 3);
    let layout = if r.coin() { DataLayout::Interleaved } else { DataLayout::Contigious };
    let props: Vec<(String, Prop)> = rand_props(r, false, 3);
    let ok = g.run("append", 600, cx, || {
        let Ok(mut w) = f.writer() else { return 0u64 };
        let mut done = 1;
        for _ in 0..2 {
            with_kind!(k, T => {
                let vals: Vec<T> = values(k, n * chs.len(), seed).chunks(k.size()).map(<T as crate::kinds::Elem>::from_canon).collect();
                done += w.write_channels(&chs, &vals, layout).is_ok() as u64;
            });
            let v: Vec<(&str, PropertyValue)> = props.iter().map(|(n, p)| (n.as_str(), p.to_lib())).collect();
            done += w.write_properties(chs[0].as_ref(), &v).is_ok() as u64;
        }
        done += w.sync().is_ok() as u64;
        done
    })?;
    cx.add("append_calls_accepted", ok);
    Ok(())
}

fn c11(cx: &mut Cx, r: &mut Rng) -> Res {
    let b = match cx.scale {
        Some(v) => crate::scale::hostile(v, r, cx),
        None => hostile_bytes(r, cx, false),
    };
    cx.feat(&b);
    cx.note(|| format!("file of {} bytes: {:02x?}", b.len(), &b[..b.len().min(160)]));
    alloc::set_limit(256 << 20);
    let res = c11_inner(cx, r, b);
    alloc::set_limit(usize::MAX);
    res
}

fn c11_inner(cx: &mut Cx, r: &mut Rng, b: Vec<u8>) -> Res {
    let size = b.len() as u64;
    let sh = Shared::new(b);
    let g = Guard { sh: &sh, limit_ops: 2_000 + 8 * size, limit_cpu: 3.0 };
    let f = g.run("open", 0, cx, || TdmsFile::new(sh.open()))?;
    let mut f = match f {
        Ok(f) => f,
        Err(e) => {
            let _ = format!("{e} {e:?}");
            cx.add("files_refused", 1);
            return Ok(());
        }
    };
    cx.nontrivial = true;
    cx.add("files_loaded", 1);
    read_all(&mut f, &g, r, cx, 3)?;
    if r.coin() {
        append(&mut f, &g, r, cx)?;
        let g = Guard { sh: &sh, limit_ops: 2_000 + 8 * sh.len(), limit_cpu: 3.0 };
        read_all(&mut f, &g, r, cx, 1)?;
        if r.coin() {
            let f = g.run("open", 0, cx, || TdmsFile::new(sh.open()))?;
            if let Ok(mut f) = f {
                read_all(&mut f, &g, r, cx, 1)?;
            }
        }
    }
    Ok(())
}

// ----------------------------------------------------------------------- C12

fn peeking(sh: &Shared) -> Disk {
    let mut d = sh.open();
    d.peek = true;
    d
}

fn rand_faults(r: &mut Rng) -> Faults {
    let mut f = Faults::default();
    if r.coin() {
        f.short = Some(r.fork());
    }
    if r.chance(1, 3) {
        f.eintr = Some(r.fork());
    }
    if r.chance(1, 3) {
        f.fail = Some((*r.pick(&[OpKind::Read, OpKind::Read, OpKind::Write, OpKind::Seek, OpKind::Flush]), r.below64(40), *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::TimedOut])));
        f.sticky = r.coin();
    }
    f
}

fn c12(cx: &mut Cx, r: &mut Rng) -> Res {
    cx.nontrivial = true;
    let small = cx.miri || !r.chance(1, 8);
    // a whole file costs the interpreter seconds, a codec milliseconds
    let kind = if cx.miri && r.chance(3, 5) { r.below(3) } else { r.below(8) };
    cx.feat_n(kind as u64);
    match kind {
        // codecs straight from a stream that looks at its buffer
        0 | 1 => {
            let k = *r.pick(&NATURAL);
            let cut = r.below(k.size() + 3);
            let bytes = r.bytes(cut);
            cx.feat(&bytes);
            let sh = Shared::new(bytes);
            sh.arm(rand_faults(r));
            let mut d = peeking(&sh);
            with_kind!(k, T => {
                let v = if r.coin() { T::read_le(&mut d) } else { T::read_be(&mut d) };
                if let Ok(v) = v {
                    let mut o = vec![];
                    v.write_le(&mut o).map_err(|e| format!("encoding to memory failed: {e:?}"))?;
                    v.write_be(&mut o).map_err(|e| format!("encoding to memory failed: {e:?}"))?;
                    std::hint::black_box(o.iter().fold(0u8, |a, b| a ^ b));
                    cx.add("values_decoded", 1);
                }
            });
            cx.add("codec_calls", 1);
            Ok(())
        }
        // strings: any length field, any bytes
        2 => {
            let be = r.coin();
            let n = match r.below(if cx.miri { 12 } else { 24 }) {
                0 => r.below(700),
                1 if !cx.miri => *r.pick(&[1024usize, 4096, 8192, 65_536]) + r.below(80),
                2 if !cx.miri => r.below(70_000),
                _ => r.below(24),
            };
            let claim = match r.below(6) {
                0 => interesting(r, n as u64, n as u64, 4) as u32,
                1 => n as u32 + r.below(3) as u32,
                _ => n as u32,
            };
            let claim = if claim > 1 << 20 && cx.miri { 1 << 12 } else { claim };
            let mut b = if be { claim.to_be_bytes().to_vec() } else { claim.to_le_bytes().to_vec() };
            let body = match r.below(3) {
                0 => r.bytes(n),
                1 => (0..n).map(|_| b'a' + r.below(26) as u8).collect(),
                _ => almost_text(r, n),
            };
            b.extend_from_slice(&body);
            cx.feat(&b);
            let sh = Shared::new(b);
            sh.arm(rand_faults(r));
            let mut d = peeking(&sh);
            alloc::set_limit(256 << 20);
            let v = if be { String::read_be(&mut d) } else { String::read_le(&mut d) };
            alloc::set_limit(usize::MAX);
            if let Ok(s) = v {
                text_ok(&s, "a decoded string")?;
                if s.len() != claim as usize || s.as_bytes() != &body[..s.len().min(body.len())] {
                    return Err(format!("a string of {claim} bytes decodes to {} other bytes", s.len()));
                }
                cx.add("strings_decoded", 1);
            }
            cx.add("codec_calls", 1);
            Ok(())
        }
        // whole files
        _ => {
            let b = if kind < 6 {
                let fo = ForeignOpts { unequal: r.coin(), max_segs: 3, max_n: 4, max_chans: 3, max_chunks: 2, plain_names: small, ..Default::default() };
                let mut quiet = Cx::new(false, false);
                foreign(r, &fo, &mut quiet).bytes
            } else if r.coin() {
                flawed_texts(r, cx)
            } else {
                hostile_bytes(r, cx, true)
            };
            if cx.miri && b.len() > 3000 {
                return Ok(());
            }
            cx.feat(&b);
            alloc::set_limit(256 << 20);
            let res = c12_file(cx, r, b);
            alloc::set_limit(usize::MAX);
            res
        }
    }
}

fn c12_file(cx: &mut Cx, r: &mut Rng, b: Vec<u8>) -> Res {
    let size = b.len() as u64;
    let sh = Shared::new(b);
    sh.arm(rand_faults(r));
    let g = Guard { sh: &sh, limit_ops: 20_000 + 100 * size, limit_cpu: 20.0 };
    let Ok(mut f) = g.run("open", 0, cx, || TdmsFile::new(peeking(&sh)))? else {
        cx.add("files_refused", 1);
        return Ok(());
    };
    cx.add("files_loaded", 1);
    if r.chance(2, 3) {
        sh.arm(rand_faults(r));
    }
    read_all(&mut f, &g, r, cx, 1)?;
    if r.coin() {
        append(&mut f, &g, r, cx)?;
        read_all(&mut f, &g, r, cx, 1)?;
    }
    Ok(())
}

fn harness_dir() -> std::path::PathBuf {
    let exe = std::env::current_exe().unwrap();
    // <harness>/target/release/monitor
    exe.parent().and_then(|p| p.parent()).and_then(|p| p.parent()).map(|p| p.to_path_buf()).unwrap_or_else(|| "/verif/harness".into())
}

fn parse(out: &str, err: &str, tool: &str, code: Option<i32>, x: &mut Extra) {
    let mut done = false;
    for l in out.lines() {
        if let Some(s) = l.strip_prefix("MIRI-SIG ") {
            if let Ok(v) = s.trim().parse() {
                x.sigs.push(v);
            }
        } else if let Some(t) = l.strip_prefix("MIRI-DONE ") {
            done = true;
            for kv in t.split(' ') {
                if let Some((k, v)) = kv.split_once('=')
                    && let Ok(v) = v.parse::<u64>()
                {
                    if k == "cases" {
                        x.evaluations += v;
                    }
                    x.counters.push((format!("{tool}_{k}"), v));
                }
            }
        } else if let Some(t) = l.strip_prefix("MIRI-CASE-VIOLATION ") {
            x.violations.push(format!("under {tool}: {t}"));
        } else if let Some(t) = l.strip_prefix("MIRI-CASE-ERROR ") {
            x.errors.push(format!("under {tool}: {t}"));
        }
    }
    let ub: Vec<&str> = err
        .lines()
        .filter(|l| l.contains("Undefined Behavior") || l.contains("uninitialised") || l.contains("Invalid read") || l.contains("Invalid write") || l.contains("-->") && l.contains("/repo/"))
        .take(4)
        .collect();
    if err.contains("Undefined Behavior") || (tool == "valgrind" && code == Some(99)) {
        x.violations.push(format!("{tool} reports: {}", ub.join(" / ").replace('\t', " ")));
    } else if !done && x.violations.is_empty() && x.errors.is_empty() {
        let tail: Vec<&str> = err.lines().rev().take(6).collect();
        x.errors.push(format!("{tool} ended with {code:?} before finishing: {}", tail.into_iter().rev().collect::<Vec<_>>().join(" / ")));
    }
}

/// A file whose names, paths and property texts may have a flaw.
fn flawed_texts(r: &mut Rng, cx: &mut Cx) -> Vec<u8> {
    let mut len = |r: &mut Rng| match r.below(8) {
        0 => r.below(300),
        1 if !cx.miri => r.below(70_000),
        2 if !cx.miri => *r.pick(&[1000usize, 4000, 8100, 32_700, 65_500]) + r.below(120),
        _ => r.below(20),
    };
    let be = r.coin();
    let u = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let text = |b: &[u8]| [&u(b.len() as u32)[..], b].concat();
    let l = [len(r), len(r), len(r)];
    let (c, p, v) = (almost_text(r, l[0]), almost_text(r, l[1]), almost_text(r, l[2]));
    let which = r.below(3);
    let good = |i: usize, b: Vec<u8>, plain: &[u8]| if i == which { b } else { plain.to_vec() };
    let path = [b"/'g'/'", &good(0, c, b"a")[..], b"'"].concat();
    let mut m = u(1).to_vec();
    m.extend(text(&path));
    m.extend(u(20));
    m.extend(u(5));
    m.extend(u(1));
    m.extend(if be { 2u64.to_be_bytes() } else { 2u64.to_le_bytes() });
    m.extend(u(1));
    m.extend(text(&good(1, p, b"p")));
    m.extend(u(0x20));
    m.extend(text(&good(2, v, b"v")));
    let w = |x: u64| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let mut d = b"TDSm".to_vec();
    d.extend((0x0Eu32 | if be { 64 } else { 0 }).to_le_bytes());
    d.extend(u(4713));
    d.extend(w(m.len() as u64 + 2));
    d.extend(w(m.len() as u64));
    d.extend(m);
    d.extend([1, 2]);
    cx.add("files_with_flawed_texts", 1);
    d
}

/// A text with a single flaw somewhere, or none.
fn almost_text(r: &mut Rng, n: usize) -> Vec<u8> {
    let unit = *r.pick(&["a", "\u{e9}", "\u{4e2d}", "\u{1f600}", "abc\u{e9}"]);
    let mut v = unit.repeat(n / unit.len() + 1).into_bytes();
    // possibly ends within a character
    v.truncate(n);
    if n > 0 && r.chance(3, 4) {
        let at = match r.below(4) {
            0 => n - 1,
            1 => n - 1 - r.below(n.min(40)),
            _ => r.below(n),
        };
        v[at] = *r.pick(&[0xff, 0x80, 0xc0, 0xed, 0xf8, 0xe4]);
    }
    v
}

/// The same cases under Miri (and valgrind), sharded over the cores.
fn sanitizers(thorough: bool, seed: u64) -> Result<Extra, String> {
    let mut x = Extra::default();
    let dir = harness_dir();
    let shards = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 8);
    let per: u64 = if thorough { 1600 } else { 40 };
    // each process stops starting cases after this long
    let secs = if thorough { "400" } else { "60" };
    let miri = |args: Vec<String>| {
        let mut c = Command::new("cargo");
        c.current_dir(&dir)
            .args(["+nightly", "miri", "run", "--offline", "--quiet", "--"])
            .args(args)
            .env("VP_STOP_AFTER", secs)
            .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-symbolic-alignment-check")
            .env("CARGO_TARGET_DIR", dir.join("target/miri"))
            .env_remove("RUSTFLAGS")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        c
    };
    // build once, run nothing
    let warm = miri(vec!["miri".into(), "C12".into(), seed.to_string(), "0".into(), "0".into()]).output().map_err(|e| format!("cargo miri: {e}"))?;
    if !warm.status.success() {
        let err = String::from_utf8_lossy(&warm.stderr).to_string();
        let tail: Vec<&str> = err.lines().rev().take(8).collect();
        return Err(format!("Miri does not run: {}", tail.into_iter().rev().collect::<Vec<_>>().join(" / ")));
    }
    let mut kids = vec![];
    for s in 0..shards {
        let from = 1_000_000 + s * per;
        let c = miri(vec!["miri".into(), "C12".into(), seed.to_string(), from.to_string(), (from + per).to_string()]).spawn().map_err(|e| format!("cargo miri: {e}"))?;
        kids.push(c);
    }
    // drain in order; each child buffers little
    let outs: Vec<_> = kids.into_iter().map(|c| std::thread::spawn(move || c.wait_with_output())).collect();
    for o in outs {
        let o = o.join().unwrap().map_err(|e| format!("cargo miri: {e}"))?;
        parse(&String::from_utf8_lossy(&o.stdout), &String::from_utf8_lossy(&o.stderr), "Miri", o.status.code(), &mut x);
    }
    let exe = std::env::current_exe().unwrap();
    let per_v: u64 = if thorough { 6000 } else { 150 };
    let mut kids = vec![];
    for s in 0..shards {
        let from = 2_000_000 + s * per_v;
        let c = Command::new("valgrind")
            .env("VP_STOP_AFTER", secs)
            .args(["--error-exitcode=99", "--leak-check=no", "--exit-on-first-error=yes", "-q", "--max-stackframe=8000000"])
            .arg(&exe)
            .args(["miri", "C12", &seed.to_string(), &from.to_string(), &(from + per_v).to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| format!("valgrind: {e}"))?;
        kids.push(c);
    }
    let outs: Vec<_> = kids.into_iter().map(|c| std::thread::spawn(move || c.wait_with_output())).collect();
    for o in outs {
        let o = o.join().unwrap().map_err(|e| format!("valgrind: {e}"))?;
        parse(&String::from_utf8_lossy(&o.stdout), &String::from_utf8_lossy(&o.stderr), "valgrind", o.status.code(), &mut x);
    }
    x.note = format!("{shards} shards: {per} cases each under Miri (uninitialised reads, bounds, alignment, aliasing), {per_v} cases each under valgrind memcheck");
    Ok(x)
}

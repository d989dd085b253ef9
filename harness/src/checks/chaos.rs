//! Many faults in one life of a file: the program goes on, with the same
//! writer, a new one or a fresh handle, and every sample written carries the
//! number of the call that wrote it.

use super::base_file;
use crate::cx::{Cx, Res};
use crate::disk::{Faults, OpKind, Shared};
use crate::kinds::Picky;
use crate::rng::Rng;
use crate::spec::{Content, decode};
use crate::view::{File, open};
use crate::workload::{ForeignOpts, HistOpts};
use std::io::ErrorKind;
use std::panic::{AssertUnwindSafe, catch_unwind};
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd)]
enum St {
    /// The call failed.
    Tried,
    /// The call returned success.
    Acked,
    /// A later sync succeeded, or nothing failed until the writer was dropped.
    Safe,
}

#[derive(Debug)]
struct Att {
    chs: Vec<usize>,
    n: usize,
    layout: DataLayout,
    /// Property write (object, name) instead of data.
    prop: Option<(usize, usize)>,
    st: St,
    writer: usize,
}

const SENT: u64 = 0xFFFF_AAAA_FFFF_5555;
const NAMES: [&str; 2] = ["p", "q"];

/// A text of `n` bytes that begins with the number of the call.
fn text(id: usize, n: usize) -> String {
    let mut t = format!("{id} ");
    let mut i = 0u32;
    while t.len() < n {
        t.push((b'a' + (i * 7 % 26) as u8) as char);
        i += 1;
    }
    t
}

fn chan(i: usize) -> ChannelPath {
    ChannelPath::new("chaos", &format!("c{i}"))
}
fn object(i: usize) -> PropertyPath {
    match i {
        0 => PropertyPath::group("chaos"),
        i => PropertyPath::channel("chaos", &format!("c{}", i - 1)),
    }
}

/// What a handle shows must be an ordered selection of what was attempted,
/// with everything that was safe.
fn judge(f: &mut File, fresh: bool, nch: usize, atts: &[Att], cx: &mut Cx) -> Res {
    for c in 0..nch {
        let p = chan(c);
        let mine = |a: &Att| a.prop.is_none() && a.n > 0 && a.chs.contains(&c);
        let Some(len) = f.channel_length(&p) else {
            if let Some(i) = atts.iter().position(|a| mine(a) && a.st == St::Safe) {
                return Err(format!("channel {p} is missing though call {i} and a sync succeeded: {atts:?}"));
            }
            continue;
        };
        let most: usize = atts.iter().filter(|a| mine(a)).map(|a| a.n).sum();
        if len > most as u64 {
            return Err(format!("channel {p} has length {len} but only {most} samples were ever written: {atts:?}"));
        }
        let mut out = vec![SENT; len as usize + 3];
        match f.read_channel(&p, &mut out) {
            Ok(()) => {}
            Err(e) if fresh => return Err(format!("channel {p} of the file left behind cannot be read: {e:?}: {atts:?}")),
            // this handle knows of samples that never reached the stream
            Err(_) => {
                cx.add("reads_of_lost_samples_refused", 1);
                continue;
            }
        }
        if out[len as usize..].iter().any(|v| *v != SENT) || out[..len as usize].contains(&SENT) {
            return Err(format!("channel {p} of length {len} delivers another number of samples"));
        }
        let mut at = 0usize;
        let mut from = 0usize;
        while at < len as usize {
            let id = (out[at] >> 24) as usize;
            if id < from || id >= atts.len() || !mine(&atts[id]) || (out[at] >> 20) & 15 != c as u64 {
                return Err(format!("channel {p} sample {at} is {:#x}, which was not written there, or not in this order: {atts:?}", out[at]));
            }
            if let Some(i) = (from..id).find(|i| mine(&atts[*i]) && atts[*i].st == St::Safe) {
                return Err(format!("channel {p} lacks the samples of call {i}, which was synced: {atts:?}"));
            }
            let want = out[at];
            let mut m = 0;
            while at < len as usize && m < atts[id].n && out[at] == want + m as u64 {
                at += 1;
                m += 1;
            }
            if want & 0xF_FFFF != 0 || (m < atts[id].n && atts[id].st == St::Safe) {
                return Err(format!("channel {p} shows {m} of {} samples of call {id} ({:?}): {atts:?}", atts[id].n, atts[id].st));
            }
            from = id + 1;
        }
        if let Some(i) = (from..atts.len()).find(|i| mine(&atts[*i]) && atts[*i].st == St::Safe) {
            return Err(format!("channel {p} lacks the samples of call {i}, which was synced: {atts:?}"));
        }
        cx.add("samples_compared", len);
    }
    for o in 0..=nch {
        let path = object(o);
        for (k, name) in NAMES.iter().enumerate() {
            let mine = |a: &Att| a.prop == Some((o, k));
            let safe = atts.iter().rposition(|a| mine(a) && a.st == St::Safe);
            let got = f.read_property(&path, name).ok().flatten().cloned();
            match (got.clone(), safe) {
                (None, None) => {}
                (None, Some(i)) => return Err(format!("property {name} of {path} written by call {i} and synced is gone: {atts:?}")),
                (Some(PropertyValue::U32(_) | PropertyValue::String(_)), _) => {
                    let v = match &got {
                        Some(PropertyValue::U32(v)) => *v as usize,
                        Some(PropertyValue::String(t)) => {
                            let v = t.split_once(' ').and_then(|(v, _)| v.parse().ok()).unwrap_or(usize::MAX);
                            if *t != text(v, t.len()) {
                                return Err(format!("property {name} of {path} is a text of {} bytes that was never written: {atts:?}", t.len()));
                            }
                            if atts.get(v).is_some_and(|a| a.n != t.len()) {
                                return Err(format!("property {name} of {path} written by call {v} has {} bytes: {atts:?}", t.len()));
                            }
                            v
                        }
                        _ => unreachable!(),
                    };
                    if v >= atts.len() || !mine(&atts[v]) || safe.is_some_and(|s| v < s) {
                        return Err(format!("property {name} of {path} is {v}, last safe value {safe:?}: {atts:?}"));
                    }
                }
                (Some(v), _) => return Err(format!("property {name} of {path} is {v:?}")),
            }
        }
    }
    Ok(())
}

pub fn chaos(cx: &mut Cx, r: &mut Rng) -> Res {
    // something may already be there, whole or cut
    let mut base = Content::default();
    let mut sh = Shared::new(vec![]);
    if r.coin() {
        let b = base_file(r, cx, HistOpts { max_n: 6, max_ops: 3, max_sessions: 2, max_chans: 3, ..Default::default() }, &ForeignOpts { max_chans: 3, max_n: 4, max_segs: 4, ..Default::default() }, 60);
        if !b.content.objs.keys().any(|p| p.starts_with("/'chaos'")) && b.bytes.len() < 200_000 {
            let mut bytes = b.bytes;
            base = b.content;
            if r.coin() && !bytes.is_empty() {
                let cut = r.below(bytes.len());
                let d = decode(&bytes).map_err(|e| format!("harness: {e}")).unwrap();
                let keep = d.segs.iter().take_while(|s| s.end <= cut as u64).last().map_or(0, |s| s.end as usize);
                base = decode(&bytes[..keep]).unwrap().content;
                bytes.truncate(cut);
                cx.add("starts_on_a_cut_file", 1);
            }
            sh = Shared::new(bytes);
        }
    }
    let nch = r.range(1, 3);
    let mut atts: Vec<Att> = vec![];
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    let sizes: &[usize] = if r.coin() { &[1, 2, 5] } else { &[1, 3, 500, 1023, 1024, 1025, 3000] };
    let mut writers = 0usize;
    let mut lost = 0u64;
    let arm = |sh: &Shared, r: &mut Rng| {
        let mut x = Faults::default();
        if r.chance(1, 3) {
            x.short = Some(r.fork());
        }
        if r.chance(1, 4) {
            x.eintr = Some(r.fork());
        }
        let err = *r.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::TimedOut]);
        match r.below(8) {
            0..=3 => x.fail = Some((OpKind::Write, { let n = *r.pick(&[2, 6, 30]); r.below64(n) }, err)),
            4 => x.fail = Some((OpKind::Flush, r.below64(2), err)),
            5 => x.fail = Some((OpKind::Seek, r.below64(4), err)),
            6 => x.write_budget = Some(r.below64(*[10u64, 40, 200, 20_000].get(r.clone().below(4)).unwrap())),
            _ => {}
        }
        x.sticky = r.chance(1, 3);
        sh.arm(x);
    };
    for _ in 0..r.range(2, 10) {
        match r.below(3) {
            0 => sh.disarm(),
            _ => arm(&sh, r),
        }
        writers += 1;
        let mut refused = false;
        let f0 = sh.0.borrow().total_faults;
        match f.writer() {
            Ok(mut w) => {
                for _ in 0..r.range(1, 5) {
                    let id = atts.len();
                    let ok = match r.below(8) {
                        0 | 1 => {
                            let ok = w.sync().is_ok();
                            if ok {
                                for a in atts.iter_mut().filter(|a| a.writer == writers && a.st == St::Acked) {
                                    a.st = St::Safe;
                                }
                            }
                            ok
                        }
                        2 => {
                            let (o, k) = (r.below(nch + 1), r.below(2));
                            let (n, v) = if r.chance(1, 3) {
                                let t = text(id, *r.pick(&[10, 100, 8000, 8191, 8192, 8193, 9000, 20_000]));
                                (t.len(), PropertyValue::String(t))
                            } else {
                                (0, PropertyValue::U32(id as u32))
                            };
                            let ok = w.write_properties(&object(o), &[(NAMES[k], v)]).is_ok();
                            atts.push(Att { chs: vec![], n, layout: DataLayout::Contigious, prop: Some((o, k)), st: if ok { St::Acked } else { St::Tried }, writer: writers });
                            ok
                        }
                        _ => {
                            let mut chs: Vec<usize> = (0..nch).collect();
                            if r.coin() {
                                r.shuffle(&mut chs);
                                chs.truncate(r.range(1, nch));
                            }
                            let n = *r.pick(sizes);
                            let layout = if r.coin() { DataLayout::Interleaved } else { DataLayout::Contigious };
                            let val = |c: usize, j: usize| (id as u64) << 24 | (c as u64) << 20 | j as u64;
                            let v: Vec<u64> = match layout {
                                DataLayout::Interleaved => (0..n).flat_map(|j| chs.iter().map(move |c| val(*c, j))).collect(),
                                DataLayout::Contigious => chs.iter().flat_map(|c| (0..n).map(move |j| val(*c, j))).collect(),
                            };
                            let paths: Vec<ChannelPath> = chs.iter().map(|c| chan(*c)).collect();
                            let ok = if !v.is_empty() && r.chance(1, 10) {
                                // one value that its own type fails to encode
                                let mut v: Vec<Picky> = v.into_iter().map(Picky).collect();
                                let at = *r.pick(&[0, v.len() / 2, v.len() - 1]);
                                v[at] = Picky(Picky::IMPOSSIBLE + r.below64(Picky::WAYS));
                                cx.add("values_that_fail_to_encode", 1);
                                let res = catch_unwind(AssertUnwindSafe(|| w.write_channels(&paths, &v, layout)));
                                if let Err(p) = &res
                                    && p.downcast_ref::<&str>() != Some(&"impossible value")
                                {
                                    std::panic::resume_unwind(res.unwrap_err());
                                }
                                if let Ok(Ok(())) = res {
                                    return Err(format!("a write of a value that fails to encode returned success: {atts:?}"));
                                }
                                false
                            } else {
                                w.write_channels(&paths, &v, layout).is_ok()
                            };
                            atts.push(Att { chs, n, layout, prop: None, st: if ok { St::Acked } else { St::Tried }, writer: writers });
                            ok
                        }
                    };
                    if !ok {
                        lost += 1;
                        if r.coin() {
                            break;
                        }
                    }
                    match r.below(6) {
                        0 => sh.disarm(),
                        1 => arm(&sh, r),
                        _ => {}
                    }
                }
            }
            Err(_) => {
                lost += 1;
                refused = true;
            }
        }
        if refused && r.coin() {
            sh.disarm();
            f = open(&sh).map_err(|e| format!("the file left behind does not open: {e:?}: {atts:?}"))?;
        }
        let seen = sh.0.borrow().total_faults - f0;
        cx.add("faults_injected", seen);
        if seen == 0 {
            for a in atts.iter_mut().filter(|a| a.writer == writers && a.st == St::Acked) {
                a.st = St::Safe;
            }
        }
        sh.disarm();
        match r.below(4) {
            0 => judge(&mut f, false, nch, &atts, cx).map_err(|e| format!("on the handle in use: {e}"))?,
            1 | 2 => {
                let mut g = open(&sh).map_err(|e| format!("the file left behind does not open: {e:?}: {atts:?}"))?;
                judge(&mut g, true, nch, &atts, cx).map_err(|e| format!("on a fresh open: {e}"))?;
                super::write::prefix_check(&mut g, &base, cx, r).map_err(|e| format!("content from before: {e}"))?;
                if r.coin() {
                    f = g;
                }
            }
            _ => {}
        }
    }
    cx.note(|| format!("{atts:?}"));
    cx.add("chaos_calls", atts.len() as u64);
    cx.add("chaos_calls_failed", lost);
    for a in &atts {
        cx.feat_n(a.st as u64 | (a.n as u64) << 2 | (a.layout as u64) << 40);
    }
    cx.nontrivial = lost > 0;
    let mut g = open(&sh).map_err(|e| format!("the file left behind does not open: {e:?}: {atts:?}"))?;
    judge(&mut g, true, nch, &atts, cx).map_err(|e| format!("in the end: {e}"))?;
    // and a last undisturbed write
    {
        let mut w = g.writer().map_err(|e| format!("a fresh handle gives no writer: {e:?}: {atts:?}"))?;
        let id = atts.len();
        w.write_channels(&[chan(0)], &[(id as u64) << 24], DataLayout::Contigious).map_err(|e| format!("the last write failed: {e:?}"))?;
        w.sync().map_err(|e| format!("the last sync failed: {e:?}"))?;
        atts.push(Att { chs: vec![0], n: 1, layout: DataLayout::Contigious, prop: None, st: St::Safe, writer: writers + 1 });
    }
    let mut g = open(&sh).map_err(|e| format!("the file does not open after the last write: {e:?}: {atts:?}"))?;
    judge(&mut g, true, nch, &atts, cx).map_err(|e| format!("after the last write: {e}"))?;
    super::write::prefix_check(&mut g, &base, cx, r).map_err(|e| format!("content from before, after the last write: {e}"))?;
    super::write::well_formed(&sh, None, cx).map_err(|e| format!("after the last write: {e}: {atts:?}"))?;
    Ok(())
}

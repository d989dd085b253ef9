//! Single calls that move more than 4 GiB or 2^32 samples. The values come
//! from zeroed memory that is never touched, apart from a few marked samples,
//! and go to a stream that keeps only what is not zero.

use crate::cx::{Cx, Res};
use crate::disk::{Shared, Store};
use crate::kinds::{Elem, Kind};
use crate::rng::Rng;
use crate::view::{File, check_buf, open, sentinel};
use std::collections::BTreeMap;
use tedium::types::Complex;
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue};

/// The last takes minutes.
pub fn variants(thorough: bool) -> Vec<u64> {
    (0..if thorough { 8 } else { 7 }).collect()
}

/// Texts; the last two take much memory.
pub fn text_variants(thorough: bool) -> Vec<u64> {
    if thorough { vec![100, 101, 102] } else { vec![100] }
}

/// Element types for which all bits zero is a value.
trait Plain: Elem {}
impl Plain for u8 {}
impl Plain for i16 {}
impl Plain for f64 {}
impl Plain for Complex<f64> {}

fn zeroed<T: Plain>(n: usize) -> Option<Vec<T>> {
    let l = std::alloc::Layout::array::<T>(n).ok()?;
    // SAFETY: the layout is that of the vector and zero is a value of T.
    unsafe {
        let p = std::alloc::alloc_zeroed(l) as *mut T;
        if p.is_null() { None } else { Some(Vec::from_raw_parts(p, n, n)) }
    }
}

/// What one channel holds: zero except at the marks.
#[derive(Clone, Default)]
struct Chan {
    len: u64,
    marks: BTreeMap<u64, Vec<u8>>,
}

impl Chan {
    fn slice(&self, size: usize, start: u64, n: usize) -> Vec<u8> {
        let mut v = vec![];
        for i in start..self.len.min(start.saturating_add(n as u64)) {
            match self.marks.get(&i) {
                Some(m) => v.extend_from_slice(m),
                None => v.extend(std::iter::repeat_n(0, size)),
            }
        }
        v
    }
}

fn name(c: usize) -> ChannelPath {
    ChannelPath::new("g", &format!("c{c}"))
}

fn nonzero(k: Kind, r: &mut Rng) -> Vec<u8> {
    let mut b = k.sample(r, false);
    b[0] |= 1;
    b
}

fn verify<T: Plain>(f: &mut File, chans: &[Chan], r: &mut Rng, cx: &mut Cx, when: &str) -> Res {
    let sz = T::KIND.size();
    for (c, ch) in chans.iter().enumerate() {
        let len = f.channel_length(&name(c));
        if len != Some(ch.len) {
            return Err(format!("{when}: channel {c} has length {len:?}, but {} samples were written", ch.len));
        }
        let mut at: Vec<u64> = ch.marks.keys().copied().collect();
        at.extend([0, ch.len / 2, ch.len - 1, ch.len, ch.len + 7]);
        for a in at {
            let start = a.saturating_sub(r.below64(5));
            let n = r.range(1, 12);
            let s = sentinel::<T>(r);
            let mut out = vec![s.clone(); n];
            f.read_channel_from(&name(c), start, &mut out).map_err(|e| format!("{when}: read of channel {c} from {start} failed: {e:?}"))?;
            // relative to the slice, so that no model of the whole is needed
            let want = ch.slice(sz, start, n);
            check_buf(&out, &s, &want, sz, 0, &|| format!("{when}: channel {c} from sample {start}"))?;
            cx.add("far_samples_compared", (want.len() / sz) as u64);
        }
    }
    Ok(())
}

fn write_long<T: Plain>(nch: usize, layout: DataLayout, total_bytes: u64, r: &mut Rng, cx: &mut Cx) -> Res {
    let sz = T::KIND.size();
    let per = (total_bytes / sz as u64).div_ceil(nch as u64) + r.below64(5);
    let Some(mut v) = zeroed::<T>(per as usize * nch) else {
        cx.add("long_calls_skipped_for_memory", 1);
        return Ok(());
    };
    let sh = Shared::with_store(Store::Kept { len: 0, ext: vec![] });
    let mut chans = vec![Chan::default(); nch];
    // something before, so that the long segment does not start at zero
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    let put = |f: &mut File, chans: &mut [Chan], c: usize, r: &mut Rng| -> Res {
        let b = nonzero(T::KIND, r);
        let mut w = f.writer().map_err(|e| format!("writer failed: {e:?}"))?;
        w.write_channels(&[name(c)], &[T::from_canon(&b)], DataLayout::Contigious).map_err(|e| format!("short write failed: {e:?}"))?;
        let at = chans[c].len;
        chans[c].marks.insert(at, b);
        chans[c].len += 1;
        Ok(())
    };
    for c in 0..nch {
        put(&mut f, &mut chans, c, r)?;
    }
    let base: Vec<u64> = chans.iter().map(|c| c.len).collect();
    let inter = matches!(layout, DataLayout::Interleaved);
    let index = |c: usize, i: u64| if inter { (i * nch as u64) as usize + c } else { c * per as usize + i as usize };
    for c in 0..nch {
        let mut at = vec![0, 1, per / 2, per - 1];
        // where the position in the call, in bytes, passes a power of two
        for p in [1u64 << 31, 1 << 32] {
            let e = p / sz as u64;
            let i = if inter { e / nch as u64 } else { e.wrapping_sub(c as u64 * per) };
            at.extend([i.wrapping_sub(1), i, i.wrapping_add(1)]);
        }
        for i in at.into_iter().filter(|i| *i < per) {
            let b = nonzero(T::KIND, r);
            v[index(c, i)] = T::from_canon(&b);
            chans[c].marks.insert(base[c] + i, b);
        }
    }
    {
        let names: Vec<ChannelPath> = (0..nch).map(name).collect();
        let mut w = f.writer().map_err(|e| format!("writer failed: {e:?}"))?;
        w.write_channels(&names, &v, layout).map_err(|e| format!("a write of {} bytes in one call failed: {e:?}", v.len() * sz))?;
    }
    cx.add("bytes_written_in_one_call", (v.len() * sz) as u64);
    drop(v);
    for c in &mut chans {
        c.len += per;
    }
    verify::<T>(&mut f, &chans, r, cx, "after the long write")?;
    let mut g = open(&sh).map_err(|e| format!("the file with the long segment does not open: {e:?}"))?;
    verify::<T>(&mut g, &chans, r, cx, "after reopening")?;
    for h in [&mut f, &mut g] {
        put(h, &mut chans, nch - 1, r)?;
        verify::<T>(h, &chans, r, cx, "after appending to the long file")?;
        // only one of the two handles knows of the append
        break;
    }
    let mut g = open(&sh).map_err(|e| format!("the appended file does not open: {e:?}"))?;
    put(&mut g, &mut chans, 0, r)?;
    verify::<T>(&mut g, &chans, r, cx, "after appending to the reopened file")?;
    let mut g = open(&sh).map_err(|e| format!("the appended file does not open: {e:?}"))?;
    verify::<T>(&mut g, &chans, r, cx, "after the second append, reopened")
}

/// One read call that fills a buffer of more than 2^32 samples.
fn read_long(inter: bool, r: &mut Rng, cx: &mut Cx) -> Res {
    use crate::spec::{Idx, Obj, Seg};
    let extra = r.range(1, 9) as u64;
    let n: u64 = (1 << 32) + 64 + extra;
    let nch = if inter { 2 } else { 1 };
    let s = Seg {
        meta: Some((0..nch).map(|c| Obj { path: format!("/'g'/'c{c}'"), idx: Idx::Full { code: Kind::U8.code(), n, total: None }, props: vec![] }).collect()),
        interleaved: inter,
        raw_flag: true,
        raw_virtual: Some(n * nch as u64),
        ..Seg::default()
    };
    let (head, raw) = s.head();
    let start = head.len() as u64;
    let mut marks = BTreeMap::new();
    let mut ext = vec![(0, head)];
    for i in [0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, n - 2, n - 1] {
        let b = r.range(1, 255) as u8;
        marks.insert(i as u64, b);
        ext.push((start + i * nch as u64 + (nch as u64 - 1), vec![b]));
    }
    let sh = Shared::with_store(Store::Kept { len: start + raw, ext });
    let Some(mut buf) = zeroed::<u8>(n as usize + 3) else {
        cx.add("long_calls_skipped_for_memory", 1);
        return Ok(());
    };
    let from = r.below64(3);
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    let tail = n as usize - from as usize;
    for b in &mut buf[tail..] {
        *b = 0xA5;
    }
    f.read_channel_from(&name(nch - 1), from, &mut buf).map_err(|e| format!("a read of {n} samples in one call failed: {e:?}"))?;
    let zeros = [0u8; 1 << 16];
    for (n, block) in buf.chunks(1 << 16).enumerate() {
        if block == &zeros[..block.len()] {
            continue;
        }
        for (i, b) in block.iter().enumerate() {
            let i = (n << 16) + i;
            let want = if i >= tail { 0xA5 } else { marks.get(&(i as u64 + from)).copied().unwrap_or(0) };
            if *b != want {
                return Err(format!("a read in one call from {from}: element {i} is {b}, expected {want}"));
            }
        }
    }
    for (i, b) in &marks {
        if *i >= from && buf[(*i - from) as usize] != *b {
            return Err(format!("a read of {n} samples in one call from {from}: sample {i} is {}, expected {b}", buf[(*i - from) as usize]));
        }
    }
    cx.add("samples_read_in_one_call", n - from);
    Ok(())
}

/// A text of zero bytes, none of which is touched.
fn long_text(n: usize) -> Option<String> {
    // SAFETY: zero is a character of one byte.
    zeroed::<u8>(n).map(|v| unsafe { String::from_utf8_unchecked(v) })
}

/// Texts whose length does not fit the format's 32 bits can only be refused.
fn text_too_long(paths: bool, r: &mut Rng, cx: &mut Cx) -> Res {
    let n = (1usize << 32) + [0, 1, 5, 4096, r.below(1 << 20)][r.below(5)];
    let Some(text) = long_text(n) else {
        cx.add("long_calls_skipped_for_memory", 1);
        return Ok(());
    };
    let mut value = PropertyValue::String(text);
    let sh = Shared::with_store(Store::Flat(vec![]));
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    let ch = name(0);
    let cp = PropertyPath::channel("g", "c0");
    let small = PropertyValue::I32(r.next() as i32);
    let mut written: Vec<u8> = vec![];
    {
        let mut w = f.writer().map_err(|e| format!("writer failed: {e:?}"))?;
        w.write_channels(&[&ch], &[7u8, 9], DataLayout::Contigious).map_err(|e| format!("write failed: {e:?}"))?;
        w.write_properties(&cp, &[("p", small.clone())]).map_err(|e| format!("write failed: {e:?}"))?;
    }
    written.extend([7, 9]);
    let at = [PropertyPath::file(), PropertyPath::group("g"), PropertyPath::channel("g", "c0"), PropertyPath::group("new")];
    for round in 0..8 {
        let before = sh.bytes();
        let p = &at[r.below(at.len())];
        let what;
        let res = {
            let mut w = f.writer().map_err(|e| format!("writer failed: {e:?}"))?;
            match round % 4 {
                _ if paths => {
                    let PropertyValue::String(t) = &value else { unreachable!() };
                    what = "a name";
                    if round > 1 {
                        break;
                    }
                    if round == 0 {
                        w.write_channels(&[ChannelPath::new("g", t)], &[1u8], DataLayout::Contigious)
                    } else {
                        w.write_properties(&PropertyPath::group(t), &[("p", small.clone())])
                    }
                }
                0 => {
                    what = "a value";
                    let all = [("p", value)];
                    let res = w.write_properties(p, &all);
                    let [(_, back)] = all;
                    value = back;
                    res
                }
                1 => {
                    what = "a value among others";
                    let all = [("p", PropertyValue::I32(1)), ("q", value), ("r", PropertyValue::String("x".into()))];
                    let res = w.write_properties(p, &all);
                    let [_, (_, back), _] = all;
                    value = back;
                    res
                }
                2 => {
                    what = "a property name";
                    let PropertyValue::String(t) = &value else { unreachable!() };
                    w.write_properties(p, &[(t.as_str(), PropertyValue::I32(1))])
                }
                _ => {
                    what = "a property name and the value";
                    let PropertyValue::String(t) = &value else { unreachable!() };
                    let all = [("p", PropertyValue::I32(1)), (t.as_str(), PropertyValue::String("x".into()))];
                    w.write_properties(p, &all)
                }
            }
        };
        if res.is_ok() {
            return Err(format!("{what} of {n} bytes was accepted, but the format has 32 bits for its length"));
        }
        if sh.bytes() != before {
            return Err(format!("a refused write ({what} of {n} bytes) changed the file"));
        }
        cx.add("texts_refused", 1);
        let b = r.below(256) as u8;
        {
            let mut w = f.writer().map_err(|e| format!("writer failed after a refused write: {e:?}"))?;
            w.write_channels(&[&ch], &[b], DataLayout::Contigious).map_err(|e| format!("write after a refused one failed: {e:?}"))?;
        }
        written.push(b);
        let mut g = open(&sh).map_err(|e| format!("the file does not open after a refused write ({what} of {n} bytes): {e:?}"))?;
        for (h, when) in [(&mut f, "handle in use"), (&mut g, "reopened")] {
            let mut out = vec![0u8; written.len() + 2];
            h.read_channel(&ch, &mut out).map_err(|e| format!("{when}: read failed after a refused write: {e:?}"))?;
            if out[..written.len()] != written[..] || h.channel_length(&ch) != Some(written.len() as u64) {
                return Err(format!("{when}: after a refused write ({what} of {n} bytes) the samples are {out:?}, written {written:?}"));
            }
            let got: Vec<_> = h.read_all_properties(&cp).map(|p| p.collect()).unwrap_or_default();
            if got.len() != 1 || got[0].1 != &small {
                return Err(format!("{when}: a refused write ({what} of {n} bytes) left {} properties", got.len()));
            }
            let count = h.read_all_properties(&PropertyPath::group("new")).map(|v| v.count()).unwrap_or(0)
                + h.read_all_properties(&PropertyPath::file()).map(|v| v.count()).unwrap_or(0);
            if count != 0 {
                return Err(format!("{when}: a refused write ({what} of {n} bytes) left properties"));
            }
        }
    }
    Ok(())
}

/// The longest text that the format can hold.
fn longest_text(r: &mut Rng, cx: &mut Cx) -> Res {
    let n = u32::MAX as usize - r.below(2);
    let Some(text) = long_text(n) else {
        cx.add("long_calls_skipped_for_memory", 1);
        return Ok(());
    };
    let sh = Shared::with_store(Store::Kept { len: 0, ext: vec![] });
    let cp = PropertyPath::channel("g", "c0");
    let mut f = open(&sh).map_err(|e| format!("open failed: {e:?}"))?;
    {
        let mut w = f.writer().map_err(|e| format!("writer failed: {e:?}"))?;
        w.write_properties(&cp, &[("long", PropertyValue::String(text)), ("next", PropertyValue::I32(5))])
            .map_err(|e| format!("a value of {n} bytes was refused: {e:?}"))?;
    }
    drop(f);
    let f = open(&sh).map_err(|e| format!("the file with a value of {n} bytes does not open: {e:?}"))?;
    match f.read_property(&cp, "long") {
        Ok(Some(PropertyValue::String(t))) if t.len() == n && t.bytes().all(|b| b == 0) => {}
        other => return Err(format!("a value of {n} bytes reads back as {:?}", other.map(|v| v.is_some()))),
    }
    match f.read_property(&cp, "next") {
        Ok(Some(PropertyValue::I32(5))) => {}
        other => return Err(format!("the property behind a value of {n} bytes reads back as {other:?}")),
    }
    cx.add("longest_texts_read_back", 1);
    Ok(())
}

pub fn run(variant: u64, seed: u64) -> (Res, Cx) {
    let mut cx = Cx::new(false, false);
    let mut r = Rng::new(crate::rng::mix(seed ^ variant.wrapping_mul(0x9E37_79B9_7F4A_7C15)));
    let over = (1u64 << 32) + 16 * r.below64(1000);
    use DataLayout::{Contigious, Interleaved};
    let res = match variant {
        0 => write_long::<Complex<f64>>(1, Contigious, over, &mut r, &mut cx),
        1 => write_long::<Complex<f64>>(1 + r.range(1, 2), Contigious, over, &mut r, &mut cx),
        2 => write_long::<Complex<f64>>(2, Interleaved, over, &mut r, &mut cx),
        3 => write_long::<f64>(3, if r.coin() { Contigious } else { Interleaved }, over, &mut r, &mut cx),
        4 => write_long::<u8>(1, Contigious, over, &mut r, &mut cx),
        5 => write_long::<i16>(2, Contigious, over, &mut r, &mut cx),
        6 => read_long(false, &mut r, &mut cx),
        100 => text_too_long(false, &mut r, &mut cx),
        101 => text_too_long(true, &mut r, &mut cx),
        102 => longest_text(&mut r, &mut cx),
        _ => read_long(true, &mut r, &mut cx),
    };
    cx.feat_n(variant);
    cx.feat_n(over);
    (res, cx)
}

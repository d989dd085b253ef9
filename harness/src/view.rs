//! Observation of a library handle through its public API, and comparison
//! with logical content.

use crate::cx::{Cx, Res};
use crate::disk::{Disk, Shared};
use crate::kinds::{Elem, Kind};
use crate::rng::Rng;
use crate::spec::{Content, ObjC, is_channel_path, path_group};
use crate::with_kind;
use crate::workload::{near, near_path};
use std::collections::{BTreeMap, BTreeSet};
use tedium::{ChannelPath, PropertyPath, PropertyValue, TdmsError, TdmsFile};

pub type File = TdmsFile<Disk>;

/// The stream may be at any position when it is handed over.
pub fn open(sh: &Shared) -> Result<File, TdmsError> {
    let len = sh.len();
    let pos = match len % 4 {
        0 | 1 => 0,
        2 => len / 3,
        _ => len.saturating_add(len % 5),
    };
    TdmsFile::new(sh.open_at(pos))
}

pub fn cp(path: &str) -> Result<ChannelPath, String> {
    match ChannelPath::try_from(path) {
        Ok(p) if p.path() == path => Ok(p),
        Ok(p) => Err(format!("channel path {path:?} turned into {:?} by parsing", p.path())),
        Err(e) => Err(format!("channel path {path:?} is not accepted: {e}")),
    }
}

pub fn pp(path: &str) -> Result<PropertyPath, String> {
    match PropertyPath::try_from(path) {
        Ok(p) if p.path() == path => Ok(p),
        Ok(p) => Err(format!("object path {path:?} turned into {:?} by parsing", p.path())),
        Err(e) => Err(format!("object path {path:?} is not accepted: {e}")),
    }
}

/// A value that differs from `avoid` (bit-wise), to mark untouched elements.
pub fn sentinel<T: Elem>(r: &mut Rng) -> T {
    let b = r.bytes(16);
    let mut b = b[..T::KIND.size()].to_vec();
    if T::KIND == Kind::Bool {
        b[0] &= 1;
    }
    T::from_canon(&b)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Check a buffer after a read that should have delivered
/// `data[start..]` truncated to the buffer, leaving the rest at `sent`.
pub fn check_buf<T: Elem>(out: &[T], sent: &T, data: &[u8], size: usize, start: u64, what: &dyn Fn() -> String) -> Res {
    let total = (data.len() / size) as u64;
    for (i, v) in out.iter().enumerate() {
        let at = start.checked_add(i as u64);
        match at {
            Some(p) if p < total => {
                let want = &data[p as usize * size..(p as usize + 1) * size];
                if !v.is(want) {
                    return Err(format!(
                        "{}: buffer[{i}] should be sample {p} = {} (le bytes) but is {v:?}{}",
                        what(),
                        hex(want),
                        if v.same(sent) { " (left untouched)" } else { "" }
                    ));
                }
            }
            _ => {
                if !v.same(sent) {
                    return Err(format!("{}: buffer[{i}] is past the channel's {total} samples but was changed to {v:?}", what()));
                }
            }
        }
    }
    Ok(())
}

/// One single-channel read compared with the expected slice.
pub fn read_check<T: Elem>(f: &mut File, path: &str, stored: Kind, data: &[u8], start: u64, len: usize, r: &mut Rng) -> Res {
    let c = cp(path)?;
    let sent = sentinel::<T>(r);
    let mut out = vec![sent.clone(); len];
    let res = if start == 0 && r.coin() { f.read_channel(&c, &mut out) } else { f.read_channel_from(&c, start, &mut out) };
    let what = || format!("read {path} as {:?} start {start} len {len} (stored {stored:?})", T::KIND);
    if let Err(e) = res {
        return Err(format!("{} failed: {e:?}", what()));
    }
    check_buf(&out, &sent, data, stored.size(), start, &what)
}

pub fn read_check_kind(f: &mut File, path: &str, stored: Kind, data: &[u8], start: u64, len: usize, r: &mut Rng) -> Res {
    with_kind!(stored, T => read_check::<T>(f, path, stored, data, start, len, r))
}

/// Part of a run of one type in a channel that holds several.
#[allow(clippy::too_many_arguments)]
fn read_run(f: &mut File, path: &str, k: Kind, first: u64, d: &[u8], start: u64, len: u64, r: &mut Rng) -> Res {
    fn one<T: Elem>(f: &mut File, path: &str, first: u64, d: &[u8], start: u64, len: u64, r: &mut Rng) -> Res {
        let sent = sentinel::<T>(r);
        let mut out = vec![sent.clone(); len as usize];
        let what = || format!("read {path} as {:?} start {} len {len}, which holds this type only", T::KIND, first + start);
        if let Err(e) = f.read_channel_from(&cp(path)?, first + start, &mut out) {
            return Err(format!("{} failed: {e:?}", what()));
        }
        check_buf(&out, &sent, d, T::KIND.size(), start, &what)
    }
    with_kind!(k, T => one::<T>(f, path, first, d, start, len, r))
}

pub fn props_map(f: &File, path: &PropertyPath) -> Option<Vec<(String, PropertyValue)>> {
    f.read_all_properties(path).map(|it| it.map(|(n, v)| (n.clone(), v.clone())).collect())
}

/// Property listing and per-name reads of one object.
pub fn check_props(f: &File, path: &str, o: &ObjC) -> Res {
    let p = pp(path)?;
    let Some(listed) = props_map(f, &p) else {
        return Err(format!("object {path} exists but its properties cannot be listed"));
    };
    if listed.len() != o.props.len() {
        return Err(format!(
            "object {path} lists {} properties {:?}, expected {:?}",
            listed.len(),
            listed.iter().map(|x| &x.0).collect::<Vec<_>>(),
            o.props.keys().collect::<Vec<_>>()
        ));
    }
    let mut seen = BTreeSet::new();
    for (n, v) in &listed {
        if !seen.insert(n.clone()) {
            return Err(format!("object {path} lists property {n:?} twice"));
        }
        match o.props.get(n) {
            None => return Err(format!("object {path} lists property {n:?} that was never written there")),
            Some(e) if !e.matches(v) => return Err(format!("object {path} property {n:?} is {v:?}, expected {e:?}")),
            _ => {}
        }
    }
    for (n, e) in &o.props {
        match f.read_property(&p, n) {
            Ok(Some(v)) if e.matches(v) => {}
            other => return Err(format!("object {path} property {n:?} reads as {other:?}, expected {e:?}")),
        }
    }
    for n in ["no such property", "", "Name", "name "] {
        if !o.props.contains_key(n) {
            match f.read_property(&p, n) {
                Ok(None) => {}
                other => return Err(format!("absent property {n:?} of {path} reads as {other:?}")),
            }
        }
    }
    Ok(())
}

/// Group and channel listings against the set of object paths.
pub fn check_listing(f: &File, paths: &BTreeSet<String>) -> Res {
    let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for p in paths {
        if let Some(g) = path_group(p) {
            let e = want.entry(g.to_string()).or_default();
            if is_channel_path(p) {
                e.insert(p.clone());
            }
        }
    }
    let got: Vec<String> = f.list_groups().map(|s| s.to_string()).collect();
    let gs: BTreeSet<String> = got.iter().cloned().collect();
    if gs.len() != got.len() {
        return Err(format!("a group is listed twice: {got:?}"));
    }
    if !gs.iter().eq(want.keys()) {
        return Err(format!("groups listed {gs:?}, expected {:?}", want.keys().collect::<Vec<_>>()));
    }
    for (g, chans) in &want {
        let gp = pp(&format!("/'{g}'"))?;
        let got: Vec<String> = f.list_channels_in_group(&gp).map(|c| c.path().to_string()).collect();
        let set: BTreeSet<String> = got.iter().cloned().collect();
        if set.len() != got.len() {
            return Err(format!("group {g:?} lists a channel twice: {got:?}"));
        }
        if set != *chans {
            return Err(format!("group {g:?} lists channels {set:?}, expected {chans:?}"));
        }
        // a group path built from the listed name finds the same channels
        // (quotes in foreign names are normalised by that constructor)
        if !g.contains('\'') {
            let n = f.list_channels_in_group(&PropertyPath::group(g)).count();
            if n != chans.len() {
                return Err(format!("group({g:?}) finds {n} channels, expected {}", chans.len()));
            }
        }
    }
    Ok(())
}

/// Objects and properties whose names are almost those in the file.
pub fn check_near(f: &mut File, content: &Content, r: &mut Rng) -> Res {
    if content.objs.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let (p, o) = content.objs.iter().nth(r.below(content.objs.len())).unwrap();
        if let Some(n) = o.props.keys().nth(r.below(o.props.len().max(1))) {
            let n = near(r, n);
            if !o.props.contains_key(&n) {
                match f.read_property(&pp(p)?, &n) {
                    Ok(None) => {}
                    other => return Err(format!("absent property {n:?} of {p} reads as {other:?}")),
                }
            }
        }
        let Some(p) = near_path(r, p) else { continue };
        if content.objs.contains_key(&p) {
            continue;
        }
        let path = pp(&p)?;
        if f.read_all_properties(&path).is_some() {
            return Err(format!("object {p} is not in the file but lists properties"));
        }
        match f.read_property(&path, "p") {
            Err(TdmsError::MissingObject(_)) => {}
            other => return Err(format!("property of missing object {p} reads as {other:?}")),
        }
        if is_channel_path(&p) {
            let c = cp(&p)?;
            if let Some(n) = f.channel_length(&c) {
                return Err(format!("missing channel {p} has length {n}"));
            }
            let mut out = [77u8; 2];
            match f.read_channel(&c, &mut out) {
                Err(TdmsError::MissingObject(_)) if out == [77; 2] => {}
                other => return Err(format!("missing channel {p} reads as {other:?} {out:?}")),
            }
        } else if !content.objs.keys().any(|k| path_group(k) == path_group(&p)) {
            let got: Vec<String> = f.list_channels_in_group(&path).map(|c| c.to_string()).collect();
            if !got.is_empty() {
                return Err(format!("missing group {p} lists channels {got:?}"));
            }
        }
    }
    Ok(())
}

pub fn check_absent(f: &File, content: &Content) -> Res {
    for p in ["/'no such group'", "/'no such group'/'c'", "/"] {
        if !content.objs.contains_key(p) {
            let path = pp(p)?;
            if f.read_all_properties(&path).is_some() {
                return Err(format!("object {p} is not in the file but lists properties"));
            }
            match f.read_property(&path, "x") {
                Err(TdmsError::MissingObject(_)) => {}
                other => return Err(format!("property of missing object {p} reads as {other:?}")),
            }
            if is_channel_path(p) {
                let c = cp(p)?;
                if let Some(n) = f.channel_length(&c) {
                    return Err(format!("missing channel {p} has length {n}"));
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
pub struct Depth {
    pub full: bool,
    pub partial: usize,
}

/// Lengths and data of one channel.
pub fn check_channel(f: &mut File, path: &str, o: &ObjC, depth: Depth, r: &mut Rng) -> Res {
    let c = cp(path)?;
    match f.channel_length(&c) {
        Some(n) if n == o.len() => {}
        other => return Err(format!("channel {path} has length {other:?}, expected {}", o.len())),
    }
    if o.strings > 0 {
        return Ok(());
    }
    if o.runs.len() > 1 {
        // Each part can be read as its own type.
        let mut first = 0u64;
        for (k, d) in &o.runs {
            let n = (d.len() / k.size()) as u64;
            let start = if depth.full { 0 } else { r.below64(n) };
            let len = if depth.full { n } else { 1 + r.below64(n - start) };
            read_run(f, path, *k, first, d, start, len, r)?;
            first += n;
        }
        return Ok(());
    }
    match o.kind() {
        None => {
            // no samples: a read of any type delivers nothing
            let mut out = [7u8; 3];
            if let Err(e) = f.read_channel(&c, &mut out) {
                return Err(format!("reading {path}, which has no samples, failed: {e:?}"));
            }
            if out != [7; 3] {
                return Err(format!("reading {path}, which has no samples, changed the buffer"));
            }
            Ok(())
        }
        Some(k) => {
            let total = o.len() as usize;
            if depth.full {
                read_check_kind(f, path, k, o.data(), 0, total + r.below(3), r)?;
            }
            for _ in 0..depth.partial {
                let start = r.below(total + 2);
                let len = r.below(total - start.min(total) + 3);
                read_check_kind(f, path, k, o.data(), start as u64, len, r)?;
            }
            Ok(())
        }
    }
}

/// Everything a user can see, against the expected content.
pub fn full_check(f: &mut File, content: &Content, depth: Depth, cx: &mut Cx, r: &mut Rng) -> Res {
    let paths: BTreeSet<String> = content.objs.keys().cloned().collect();
    check_listing(f, &paths)?;
    check_absent(f, content)?;
    check_near(f, content, r)?;
    for (p, o) in &content.objs {
        check_props(f, p, o)?;
        cx.add("objects_checked", 1);
        cx.add("properties_checked", o.props.len() as u64);
    }
    data_check(f, content, depth, cx, r)
}

pub fn data_check(f: &mut File, content: &Content, depth: Depth, cx: &mut Cx, r: &mut Rng) -> Res {
    // Every read takes time in proportion to the channels of a block.
    let with_data = content.objs.values().filter(|o| o.len() > 0).count();
    let one_in = (with_data / 4000 * 40).max(1);
    for (i, (p, o)) in content.objs.iter().enumerate() {
        if is_channel_path(p) {
            if one_in > 1 && o.len() > 0 && i + 3 < content.objs.len() && !r.chance(1, one_in) {
                match f.channel_length(&cp(p)?) {
                    Some(n) if n == o.len() => continue,
                    other => return Err(format!("channel {p} has length {other:?}, expected {}", o.len())),
                }
            }
            check_channel(f, p, o, depth, r)?;
            cx.add("channels_checked", 1);
            if depth.full {
                cx.add("samples_compared", o.len());
            }
        }
    }
    Ok(())
}

//! C09 C18: paths, codecs and conversions.

use super::Check;
use crate::cx::{Cx, Res};
use crate::disk::{Faults, Shared};
use crate::kinds::{is_prop, ALL, CODE_STRING, Elem, Kind, NATURAL, Prop, rand_string};
use crate::rng::{Rng, hash_bytes};
use crate::spec::{Idx, Obj, Seg, encode, is_channel_path, parse_path};
use crate::view::open;
use crate::with_kind;
use crate::workload::{esc, near, rand_name};
use chrono::{DateTime, Utc};
use labview_interop::types::timestamp::LVTime;
use std::io::Read;
use tedium::types::Complex;
use tedium::{ChannelPath, DataType, PropertyPath, PropertyValue, TdmsError, TdmsStorageType};

pub static CHECKS: &[Check] = &[
    Check {
        id: "C09",
        case: c09,
        quick: 3000000,
        thorough: 100000000,
        method: "names and path texts over an adversarial alphabet, against an independent grammar",
        rule: "distinct (group, channel, offered text) triples",
        assumptions: &["Single quotes in names are normalised to double quotes, as documented."],
        extra: None,
    },
    Check {
        id: "C18",
        case: c18,
        quick: 4000000,
        thorough: 200000000,
        method: "every type and byte order against independently computed encodings",
        rule: "distinct (type, value, byte order, transfer pattern) and (timestamp) inputs",
        assumptions: &["Calendar conversions are exact to a microsecond, or to a double's resolution of the seconds where that is coarser."],
        extra: None,
    },
];

// ----------------------------------------------------------------------- C09

fn nasty(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        return rand_name(r);
    }
    let n = r.below(7);
    (0..n).map(|_| *r.pick(&['\'', '\'', '/', '/', '"', 'a', 'b', ' ', 'é', '\\', '\0', '😀', '\u{301}'])).collect()
}

fn path_text(r: &mut Rng) -> String {
    match r.below(6) {
        // close to valid
        0..=2 => {
            let mut s = String::new();
            for _ in 0..r.range(0, 3) {
                s.push('/');
                if !r.chance(1, 8) {
                    s.push('\'');
                }
                let name = nasty(r);
                s.push_str(&if r.coin() { name.replace('\'', "''") } else { name });
                if !r.chance(1, 8) {
                    s.push('\'');
                }
            }
            if r.chance(1, 8) {
                s.push('/');
            }
            s
        }
        // valid, with quotes escaped by doubling
        3 | 4 => {
            let g = nasty(r).replace('\'', "''");
            if r.coin() {
                format!("/'{g}'")
            } else {
                format!("/'{g}'/'{}'", nasty(r).replace('\'', "''"))
            }
        }
        _ => nasty(r),
    }
}

fn c09(cx: &mut Cx, r: &mut Rng) -> Res {
    let g = nasty(r);
    let c = nasty(r);
    cx.feat(g.as_bytes());
    cx.feat(c.as_bytes());
    cx.nontrivial = true;
    cx.note(|| format!("group {g:?} channel {c:?}"));
    let (eg, ec) = (esc(&g), esc(&c));

    let gp = PropertyPath::group(&g);
    let pc = PropertyPath::channel(&g, &c);
    let cc = ChannelPath::new(&g, &c);
    let root = PropertyPath::file();
    let want = |what: &str, got: &dyn std::fmt::Debug, exp: &dyn std::fmt::Debug| -> Res {
        let (a, b) = (format!("{got:?}"), format!("{exp:?}"));
        if a == b { Ok(()) } else { Err(format!("{what} of group {g:?} channel {c:?} is {a}, expected {b}")) }
    };
    want("group name of the group path", &gp.group_name(), &Some(eg.as_str()))?;
    want("channel name of the group path", &gp.channel_name(), &None::<&str>)?;
    want("group name of the channel path", &pc.group_name(), &Some(eg.as_str()))?;
    want("channel name of the channel path", &pc.channel_name(), &Some(ec.as_str()))?;
    want("ChannelPath group name", &cc.group_name(), &eg.as_str())?;
    want("ChannelPath channel name", &cc.channel_name(), &ec.as_str())?;
    want("group name of the root", &root.group_name(), &None::<&str>)?;
    want("channel name of the root", &root.channel_name(), &None::<&str>)?;
    want("text of the root", &root.path(), &"/")?;
    want("text of the group path", &gp.path(), &format!("/'{eg}'"))?;
    want("text of the channel path", &pc.path(), &format!("/'{eg}'/'{ec}'"))?;
    want("text of the ChannelPath", &cc.path(), &pc.path())?;
    want("ChannelPath as property path", &AsRef::<PropertyPath>::as_ref(&cc).path(), &pc.path())?;
    want("displayed channel path", &format!("{cc}"), &pc.path())?;
    want("displayed property path", &format!("{pc}"), &pc.path())?;

    // text and back
    for p in [&root, &gp, &pc] {
        match PropertyPath::try_from(p.path()) {
            Ok(q) if q == *p && q.path() == p.path() => {
                if q.group_name() != p.group_name() || q.channel_name() != p.channel_name() {
                    return Err(format!("path {:?} reports other names after a round trip through text", p.path()));
                }
            }
            other => return Err(format!("path {:?} becomes {other:?} through text", p.path())),
        }
        let is_chan = std::ptr::eq(p, &pc);
        match (ChannelPath::try_from(p.path()), ChannelPath::try_from(p.clone())) {
            (Ok(a), Ok(b)) if is_chan && a == cc && b == cc && a.group_name() == eg && a.channel_name() == ec => {}
            (Err(TdmsError::InvalidChannelPath(_)), Err(TdmsError::InvalidChannelPath(_))) if !is_chan => {}
            (a, b) => return Err(format!("path {:?} (channel: {is_chan}) as a channel path gives {a:?} and {b:?}", p.path())),
        }
    }

    // no collisions
    let g2 = if r.coin() { g.clone() } else if r.coin() { near(r, &g) } else { nasty(r) };
    let c2 = if r.coin() { c.clone() } else if r.coin() { near(r, &c) } else { nasty(r) };
    let other = ChannelPath::new(&g2, &c2);
    let same = esc(&g2) == eg && esc(&c2) == ec;
    if (other == cc) != same || (other.path() == cc.path()) != same {
        return Err(format!("channel paths of {:?} and {:?} compare {}", (&g, &c), (&g2, &c2), other == cc));
    }
    let og = PropertyPath::group(&g2);
    if (og == gp) != (esc(&g2) == eg) || og == pc || og == root || pc == root || PropertyPath::group(&format!("{g}'/'{c}")) == pc {
        return Err(format!("paths of groups {g:?} and {g2:?} collide"));
    }

    // any text
    let t = path_text(r);
    cx.feat(t.as_bytes());
    let grammar = parse_path(&t);
    match (PropertyPath::try_from(t.as_str()), &grammar) {
        (Ok(p), gr) => {
            if p.path() != t || p.to_string() != t {
                return Err(format!("text {t:?} parses to a path that prints as {:?}", p.path()));
            }
            let _ = (p.group_name().map(str::len), p.channel_name().map(str::len));
            let as_chan = ChannelPath::try_from(t.as_str());
            if let Some(parts) = gr {
                if p.group_name() != parts.first().copied() || p.channel_name() != parts.get(1).copied() {
                    return Err(format!("path {t:?} reports names {:?} {:?}", p.group_name(), p.channel_name()));
                }
                if as_chan.is_ok() != is_channel_path(&t) {
                    return Err(format!("path {t:?} accepted as a channel: {}", as_chan.is_ok()));
                }
                cx.add("valid_texts", 1);
            } else {
                cx.add("lenient_texts", 1);
            }
            if let Ok(ch) = as_chan {
                if ch.path() != t {
                    return Err(format!("text {t:?} parses to a channel path that prints as {:?}", ch.path()));
                }
                let _ = (ch.group_name().len(), ch.channel_name().len());
            }
        }
        (Err(_), None) => {
            if let Ok(ch) = ChannelPath::try_from(t.as_str()) {
                return Err(format!("text {t:?} is no object path but is a channel path {ch:?}"));
            }
            cx.add("refused_texts", 1);
        }
        (Err(e), Some(_)) => return Err(format!("valid path text {t:?} is refused: {e:?}")),
    }
    cx.add("paths_built", 4);
    Ok(())
}

// ----------------------------------------------------------------------- C18

fn codec<T: Elem>(canon: &[u8], r: &mut Rng, cx: &mut Cx) -> Res {
    let k = T::KIND;
    let n = k.size();
    let v = T::from_canon(canon);
    let be = k.swap(canon);
    let ctx = || format!("{k:?} value {v:?} ({canon:02x?})");
    let mut o = vec![];
    v.write_le(&mut o).map_err(|e| format!("{}: write_le failed: {e:?}", ctx()))?;
    let mut ob = vec![];
    v.write_be(&mut ob).map_err(|e| format!("{}: write_be failed: {e:?}", ctx()))?;
    // a boolean is stored as 0 or 1
    let (el, eb) = if k == Kind::Bool { (vec![(canon[0] != 0) as u8], vec![(canon[0] != 0) as u8]) } else { (canon.to_vec(), be.clone()) };
    if o != el {
        return Err(format!("{}: little endian encoding is {o:02x?}, expected {el:02x?}", ctx()));
    }
    if ob != eb {
        return Err(format!("{}: big endian encoding is {ob:02x?}, expected {eb:02x?}", ctx()));
    }
    if v.size() != n || T::SIZE_BYTES != n {
        return Err(format!("{}: size() is {} and SIZE_BYTES {} but {n} bytes are written", ctx(), v.size(), T::SIZE_BYTES));
    }
    // decode, through a well behaved or a stuttering stream, with bytes after
    let mut tail = canon.to_vec();
    tail.extend_from_slice(&r.bytes(5));
    let mut tail_be = be.clone();
    tail_be.extend_from_slice(&r.bytes(5));
    for (bytes, big) in [(&tail, false), (&tail_be, true)] {
        let sh = Shared::new(bytes.clone());
        if r.coin() {
            sh.arm(Faults { short: Some(r.fork()), eintr: Some(r.fork()), ..Default::default() });
        }
        let mut d = sh.open();
        let got = if big { T::read_be(&mut d) } else { T::read_le(&mut d) };
        match got {
            Ok(x) if x.is(canon) && x.same(&v) => {}
            other => return Err(format!("{}: decoding (big endian: {big}) gives {other:?}", ctx())),
        }
        sh.disarm();
        let mut rest = vec![];
        d.read_to_end(&mut rest).unwrap();
        if rest.len() != 5 {
            return Err(format!("{}: decoding consumed {} bytes of {n}", ctx(), bytes.len() - rest.len()));
        }
        let cut = r.below(n);
        let res = if big { T::read_be(&mut &bytes[..cut]) } else { T::read_le(&mut &bytes[..cut]) };
        if let Ok(x) = res {
            return Err(format!("{k:?} decodes from only {cut} of {n} bytes, as {x:?}"));
        }
        // encoding into a full destination is an error
        let mut small = vec![0u8; cut];
        let res = if big { v.write_be(&mut &mut small[..]) } else { v.write_le(&mut &mut small[..]) };
        if res.is_ok() {
            return Err(format!("{k:?} reports success when only {cut} of {n} bytes could be written"));
        }
    }
    // type tables
    if T::NATURAL_TYPE != k.datatype() {
        return Err(format!("{k:?} is naturally stored as {:?}", T::NATURAL_TYPE));
    }
    for s in ALL {
        let d = s.datatype();
        if T::supports_data_type(&d) != k.reads(s) || T::SUPPORTED_TYPES.contains(&d) != k.reads(s) {
            return Err(format!("{k:?} can be read from stored {s:?}: {}, expected {}", T::supports_data_type(&d), k.reads(s)));
        }
    }
    cx.add("codec_values", 1);
    Ok(())
}

fn string_codec(r: &mut Rng, cx: &mut Cx) -> Res {
    let s = rand_string(r);
    let be = r.coin();
    let mut want = if be { (s.len() as u32).to_be_bytes().to_vec() } else { (s.len() as u32).to_le_bytes().to_vec() };
    want.extend_from_slice(s.as_bytes());
    let mut o = vec![];
    let res = if be { s.write_be(&mut o) } else { s.write_le(&mut o) };
    if res.is_err() || o != want {
        return Err(format!("string of {} bytes encodes (big endian: {be}) to {} bytes, first {:02x?}", s.len(), o.len(), &o[..o.len().min(8)]));
    }
    if s.size() != want.len() {
        return Err(format!("string of {} bytes reports size {}", s.len(), s.size()));
    }
    let mut bytes = want.clone();
    bytes.extend_from_slice(&[0x80; 3]);
    let sh = Shared::new(bytes.clone());
    if r.coin() {
        sh.arm(Faults { short: Some(r.fork()), eintr: Some(r.fork()), ..Default::default() });
    }
    let mut d = sh.open();
    let got = if be { String::read_be(&mut d) } else { String::read_le(&mut d) };
    match got {
        Ok(x) if x == s => {}
        other => return Err(format!("string {s:?} decodes to {other:?}")),
    }
    sh.disarm();
    let mut rest = vec![];
    d.read_to_end(&mut rest).unwrap();
    if rest.len() != 3 {
        return Err(format!("decoding a string of {} bytes leaves {} of 3 following bytes", s.len(), rest.len()));
    }
    let cut = r.below(want.len());
    let res = if be { String::read_be(&mut &bytes[..cut]) } else { String::read_le(&mut &bytes[..cut]) };
    if let Ok(x) = res {
        return Err(format!("a string decodes from {cut} of {} bytes, as {x:?}", want.len()));
    }
    // not UTF-8
    if !s.is_empty() {
        let at = 4 + r.below(s.len());
        let mut bad = want.clone();
        bad[at] = *r.pick(&[0xFF, 0xC0, 0xFE, 0xF8]);
        let valid = std::str::from_utf8(&bad[4..]).is_ok();
        let res = if be { String::read_be(&mut &bad[..]) } else { String::read_le(&mut &bad[..]) };
        match res {
            Ok(x) if !valid || x.as_bytes() != &bad[4..] => return Err(format!("bytes that are not UTF-8 decode to the string {x:?}")),
            Err(_) if valid => return Err("a UTF-8 string does not decode".into()),
            _ => {}
        }
    }
    cx.add("string_values", 1);
    Ok(())
}

trait FromProp: Sized {
    const DT: DataType;
    fn from_ref(v: &PropertyValue) -> Result<Self, TdmsError>;
    fn from_owned(v: PropertyValue) -> Result<Self, TdmsError>;
    fn back(self) -> PropertyValue;
}
macro_rules! from_prop {
    ($($t:ty => $d:ident),*) => {$(
        impl FromProp for $t {
            const DT: DataType = DataType::$d;
            fn from_ref(v: &PropertyValue) -> Result<Self, TdmsError> { Self::try_from(v) }
            fn from_owned(v: PropertyValue) -> Result<Self, TdmsError> { Self::try_from(v) }
            fn back(self) -> PropertyValue { PropertyValue::from(self) }
        }
    )*};
}
from_prop!(i8 => I8, i16 => I16, i32 => I32, i64 => I64, u8 => U8, u16 => U16, u32 => U32, u64 => U64,
    f32 => SingleFloat, f64 => DoubleFloat, bool => Boolean, LVTime => Timestamp,
    Complex<f32> => ComplexSingleFloat, Complex<f64> => ComplexDoubleFloat);
impl FromProp for String {
    const DT: DataType = DataType::TdmsString;
    fn from_ref(v: &PropertyValue) -> Result<Self, TdmsError> {
        <&str>::try_from(v).map(str::to_string)
    }
    fn from_owned(v: PropertyValue) -> Result<Self, TdmsError> {
        String::try_from(v)
    }
    fn back(self) -> PropertyValue {
        let a = PropertyValue::from(self.as_str());
        let b = PropertyValue::from(self);
        assert!(a == b, "string conversions differ");
        b
    }
}

/// The data type a stored property value is presented as.
fn shown_type(p: &Prop) -> DataType {
    match p.code {
        0 => DataType::Void,
        CODE_STRING => DataType::TdmsString,
        c => Kind::from_code(c).unwrap().natural().datatype(),
    }
}

fn conv<T: FromProp + std::fmt::Debug>(v: &PropertyValue, p: &Prop) -> Res {
    let own = shown_type(p);
    for (owned, got) in [(false, T::from_ref(v)), (true, T::from_owned(v.clone()))] {
        match got {
            Ok(x) if own == T::DT => {
                let t = format!("{x:?}");
                let b = x.back();
                if !p.matches(&b) {
                    return Err(format!("property {v:?} converts (owned: {owned}) to {t}, which converts back to {b:?}"));
                }
            }
            Ok(x) => return Err(format!("property {v:?} of type {own:?} converts to {:?} as {x:?}", T::DT)),
            Err(TdmsError::DataTypeMismatch(a, b)) if own != T::DT && a == own && b == T::DT => {}
            Err(e) => return Err(format!("property {v:?} of type {own:?} to {:?} gives the error {e:?}", T::DT)),
        }
    }
    Ok(())
}

/// Conversions of a property value to every native type: possible exactly for
/// its own type, and bit exact.
pub fn prop_conversions(v: &PropertyValue, p: &Prop) -> Res {
    if v.datatype() != shown_type(p) {
        return Err(format!("property {v:?} reports type {:?}, expected {:?}", v.datatype(), shown_type(p)));
    }
    conv::<i8>(v, p)?;
    conv::<i16>(v, p)?;
    conv::<i32>(v, p)?;
    conv::<i64>(v, p)?;
    conv::<u8>(v, p)?;
    conv::<u16>(v, p)?;
    conv::<u32>(v, p)?;
    conv::<u64>(v, p)?;
    conv::<f32>(v, p)?;
    conv::<f64>(v, p)?;
    conv::<bool>(v, p)?;
    conv::<LVTime>(v, p)?;
    conv::<Complex<f32>>(v, p)?;
    conv::<Complex<f64>>(v, p)?;
    conv::<String>(v, p)?;
    for (owned, got) in [(false, DateTime::<Utc>::try_from(v)), (true, DateTime::<Utc>::try_from(v.clone()))] {
        match (got, v) {
            (got, PropertyValue::Timestamp(t)) => calendar(t, got)?,
            (Err(TdmsError::DataTypeMismatch(a, b)), _) if a == shown_type(p) && b == DataType::Timestamp => {}
            (other, _) => return Err(format!("property {v:?} to a calendar time (owned: {owned}) gives {other:?}")),
        }
    }
    Ok(())
}

const EPOCH: i128 = 2_082_844_800;
const NS: i128 = 1_000_000_000;

/// A calendar time must match the timestamp, or fail exactly when the
/// calendar cannot hold it.
fn calendar(t: &LVTime, got: Result<DateTime<Utc>, TdmsError>) -> Res {
    let (s, f) = t.to_parts();
    let unix = s as i128 - EPOCH;
    let ns = unix * NS + ((f as u128 * NS as u128) >> 64) as i128;
    let dt_ns = |d: &DateTime<Utc>| d.timestamp() as i128 * NS + d.timestamp_subsec_nanos() as i128;
    let lo = dt_ns(&DateTime::<Utc>::MIN_UTC);
    let hi = dt_ns(&DateTime::<Utc>::MAX_UTC);
    let slack = 1000;
    match got {
        Ok(d) => {
            if (dt_ns(&d) - ns).abs() > slack {
                return Err(format!("timestamp (seconds {s}, fraction {f:#x}) becomes {d}, {} ns off", dt_ns(&d) - ns));
            }
            if ns < lo - slack || ns > hi + slack {
                return Err(format!("timestamp (seconds {s}, fraction {f:#x}) is outside the calendar but becomes {d}"));
            }
        }
        Err(TdmsError::ChronoDateTimeConversionFailed(_)) => {
            if ns >= lo + slack && ns <= hi - slack {
                return Err(format!("timestamp (seconds {s}, fraction {f:#x}) is within the calendar but fails to convert"));
            }
        }
        Err(e) => return Err(format!("timestamp (seconds {s}, fraction {f:#x}) fails with {e:?}")),
    }
    Ok(())
}

fn times(r: &mut Rng, cx: &mut Cx) -> Res {
    let lo = DateTime::<Utc>::MIN_UTC.timestamp();
    let hi = DateTime::<Utc>::MAX_UTC.timestamp();
    let near = |r: &mut Rng, c: i64| c.saturating_add(r.below(7) as i64 - 3);
    let pick_secs = |r: &mut Rng| -> i64 {
        match r.below(12) {
            0 => near(r, i64::MIN),
            1 => near(r, i64::MAX),
            2 => near(r, lo.saturating_add(EPOCH as i64)),
            3 => near(r, hi.saturating_add(EPOCH as i64)),
            4 => near(r, 0),
            5 => near(r, EPOCH as i64),
            6 => near(r, i64::MIN + EPOCH as i64),
            7 => r.next() as i64,
            8 => r.next() as i64 >> 20,
            9 => -(r.below(5_000_000_000) as i64),
            _ => r.below(6_000_000_000) as i64,
        }
    };
    let frac = |r: &mut Rng| *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, u64::MAX - 1023, u64::MAX - 4096, r.clone().next(), r.clone().next() >> 12]);
    let (s, f) = (pick_secs(r), frac(r));
    r.next();
    cx.feat_n(s as u64);
    cx.feat_n(f);
    let t = LVTime::from_parts(s, f);
    let v = PropertyValue::Timestamp(t);
    calendar(&t, DateTime::<Utc>::try_from(&v))?;
    calendar(&t, DateTime::<Utc>::try_from(v))?;
    cx.add("timestamps_to_calendar", 1);

    // calendar -> property -> calendar
    let secs = match r.below(8) {
        0 => lo + r.below(4) as i64,
        1 => hi - r.below(4) as i64,
        2 => near(r, 0),
        3 => near(r, -(EPOCH as i64)),
        4 => -(r.below(9_000_000_000) as i64),
        5 => lo + (r.next() % (hi - lo) as u64) as i64,
        _ => r.below(5_000_000_000) as i64,
    };
    let ns = match r.below(4) {
        0 => *r.pick(&[0u32, 1, 999_999_999, 500_000_000, 999_999_500, 1_000]),
        _ => r.below(1_000_000_000) as u32,
    };
    let Some(d) = DateTime::<Utc>::from_timestamp(secs, ns) else { return Ok(()) };
    let v = PropertyValue::from(d);
    let PropertyValue::Timestamp(t) = &v else {
        return Err(format!("calendar time {d} becomes the property {v:?}"));
    };
    let want = secs as i128 * NS + ns as i128;
    let (s, f) = t.to_parts();
    let got = (s as i128 - EPOCH) * NS + ((f as u128 * NS as u128) >> 64) as i128;
    // the conversion may go through a double holding the seconds
    let tol = 1000 + ((secs as i128 + EPOCH).abs() * NS >> 51);
    if (got - want).abs() > tol {
        return Err(format!("calendar time {d} becomes timestamp (seconds {s}, fraction {f:#x}), {} ns off", got - want));
    }
    let round = DateTime::<Utc>::try_from(&v);
    calendar(t, round)?;
    cx.add("calendar_round_trips", 1);
    Ok(())
}

/// A property as it is found in a file: the sizes in the header of its segment
/// are those of the bytes, and a segment of either byte order gives it back.
fn stored_prop(p: &Prop, r: &mut Rng, cx: &mut Cx) -> Res {
    let path = if r.coin() { PropertyPath::file() } else { PropertyPath::group("g") };
    let name = *r.pick(&["", "p", "a longer name", "é"]);
    let of = |be: bool, p: &Prop| Seg {
        be,
        newlist: false,
        meta: Some(vec![Obj { path: path.path().to_string(), idx: Idx::None, props: vec![(name.to_string(), p.clone())] }]),
        ..Default::default()
    };
    // what is written is of the plain type, and a boolean is 0 or 1
    let mut plain = p.clone();
    if let Some(k) = Kind::from_code(p.code)
        && p.code != 0
        && p.code != CODE_STRING
    {
        plain.code = k.natural().code();
        if k == Kind::Bool {
            plain.bytes = vec![(p.bytes[0] != 0) as u8];
        }
    }
    let sh = Shared::new(vec![]);
    let mut f = open(&sh).map_err(|e| format!("opening an empty stream failed: {e:?}"))?;
    f.writer()
        .and_then(|mut w| w.write_properties(&path, &[(name, plain.to_lib())]))
        .map_err(|e| format!("writing the property {p:?} failed: {e:?}"))?;
    let got = sh.bytes();
    let want = encode(&[of(false, &plain)]).0;
    let meta_at = 28.min(got.len());
    let len = |a: usize| got.get(a..a + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
    if got[meta_at..] != want[28..] {
        return Err(format!("the property {p:?} is stored as {:02x?}, expected {:02x?}", &got[meta_at..], &want[28..]));
    }
    for at in [12, 20] {
        if len(at) != Some(want.len() as u64 - 28) {
            return Err(format!("the property {p:?} takes a segment of {} bytes whose header says {:?}", want.len() - 28, len(at)));
        }
    }
    // two of them in a row, in either byte order
    let be = r.coin();
    let f = open(&Shared::new(encode(&[of(be, p), of(!be, p)]).0)).map_err(|e| format!("a file with the property {p:?} does not open: {e:?}"))?;
    match f.read_property(&path, name) {
        Ok(Some(v)) if p.matches(v) => {}
        other => return Err(format!("the property {p:?} (big endian: {}) is read as {other:?}", !be)),
    }
    cx.add("stored_properties", 1);
    Ok(())
}

fn c18(cx: &mut Cx, r: &mut Rng) -> Res {
    cx.nontrivial = true;
    match r.below(8) {
        0..=3 => {
            // the type of the harness itself has nothing to show here
            let k = *r.pick(&NATURAL[..15]);
            let b = k.sample(r, true);
            cx.feat_n(k as u64);
            cx.feat(&b);
            cx.note(|| format!("{k:?} {b:02x?}"));
            with_kind!(k, T => codec::<T>(&b, r, cx))?;
            let dt = k.datatype();
            if dt as u32 != k.code() {
                return Err(format!("type {k:?} has the code {:#x}, the format says {:#x}", dt as u32, k.code()));
            }
            for k in ALL {
                let d = k.datatype();
                if is_prop(&k) && d.size() as usize != k.size() {
                    return Err(format!("DataType {d:?} reports {} bytes, the format stores {}", d.size(), k.size()));
                }
                if d as u32 != k.code() {
                    return Err(format!("DataType {d:?} has the code {:#x}, the format says {:#x}", d as u32, k.code()));
                }
            }
            Ok(())
        }
        4 => {
            cx.feat_n(r.clone().next());
            string_codec(r, cx)
        }
        5 => {
            let p = Prop::random(r, true);
            cx.feat_n(hash_bytes(p.code as u64, &p.bytes));
            cx.note(|| format!("{p:?}"));
            cx.add("property_conversions", 32);
            prop_conversions(&p.to_lib(), &p)?;
            if r.chance(1, 4) { stored_prop(&p, r, cx) } else { Ok(()) }
        }
        _ => times(r, cx),
    }
}

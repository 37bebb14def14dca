//! Histories of archive descriptions: runs them against `Builder` and records what happened.
use crate::util::*;
pub use crate::world::content;
use crate::world::{Content, Scripted, World, WorldState, pattern};
use chrono::{NaiveDate, NaiveDateTime, NaiveTime, TimeDelta, TimeZone};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs::{Metadata, Permissions};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use tokio::io::{AsyncRead, ReadBuf};
use zippity::{AddEntryError, Builder, BuilderEntry, EntryData, Reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Name {
    S(String),
    /// Long name: tag, length in bytes
    L(u32, usize),
}

impl Name {
    pub fn make(&self) -> String {
        match self {
            Name::S(s) => s.clone(),
            Name::L(tag, len) => {
                let mut s = format!("{tag}-");
                while s.len() < *len {
                    s.push((b'a' + (s.len() % 23) as u8) as char);
                }
                s.truncate(*len);
                s
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Conv {
    Utc,
    Fixed(i32),
    Switch { at: (i64, i64), off: i32, off2: i32 },
    Const(i32, u32, u32, u32, u32, u32),
    /// Hand written function instead of a chrono time zone
    Own(i32),
}

/// Time zone that changes its offset at an instant
#[derive(Clone, Debug)]
pub struct Switching {
    at: i64,
    off: chrono::FixedOffset,
    off2: chrono::FixedOffset,
}

impl TimeZone for Switching {
    type Offset = chrono::FixedOffset;
    fn from_offset(_: &Self::Offset) -> Self {
        unimplemented!("not needed for conversion from UTC")
    }
    fn offset_from_local_date(&self, _: &NaiveDate) -> chrono::MappedLocalTime<Self::Offset> {
        unimplemented!("not needed for conversion from UTC")
    }
    fn offset_from_local_datetime(&self, _: &NaiveDateTime) -> chrono::MappedLocalTime<Self::Offset> {
        unimplemented!("not needed for conversion from UTC")
    }
    fn offset_from_utc_date(&self, utc: &NaiveDate) -> Self::Offset {
        self.offset_from_utc_datetime(&utc.and_time(NaiveTime::MIN))
    }
    fn offset_from_utc_datetime(&self, utc: &NaiveDateTime) -> Self::Offset {
        if utc.and_utc().timestamp() < self.at { self.off } else { self.off2 }
    }
}

/// Civil date from days since 1970-01-01, for the hand written converter.
fn civil(days: i64) -> (i32, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + i64::from(m <= 2);
    (y.clamp(-1_000_000_000, 1_000_000_000) as i32, m as u32, d as u32)
}

fn floor_secs(t: SystemTime) -> i64 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_secs() as i64,
        Err(e) => {
            let d = e.duration();
            let s = -i128::from(d.as_secs()) - i128::from(d.subsec_nanos() > 0);
            s.max(i128::from(i64::MIN)) as i64
        }
    }
}

impl Conv {
    pub fn apply<D: EntryData>(&self, b: &mut Builder<D>) {
        let east = |s: i32| chrono::FixedOffset::east_opt(s).expect("offset");
        match self.clone() {
            Conv::Utc => b.system_time_timezone(chrono::Utc),
            Conv::Fixed(s) => b.system_time_timezone(east(s)),
            Conv::Switch { at, off, off2 } => b.system_time_timezone(Switching { at: at.0 * 86_400 + at.1, off: east(off), off2: east(off2) }),
            Conv::Const(y, mo, d, h, mi, s) => b.system_time_converter(move |_| (y, mo, d, h, mi, s)),
            Conv::Own(off) => b.system_time_converter(move |t| {
                let s = floor_secs(t).saturating_add(i64::from(off));
                let (y, m, d) = civil(s.div_euclid(86_400));
                let r = s.rem_euclid(86_400) as u32;
                (y, m, d, r / 3600, r / 60 % 60, r % 60)
            }),
        };
    }
    pub fn json(&self) -> Value {
        match self {
            Conv::Utc => json!({"k": "utc"}),
            Conv::Fixed(s) | Conv::Own(s) => json!({"k": "fixed", "off": s}),
            Conv::Switch { at, off, off2 } => json!({"k": "switch", "at": [at.0, at.1], "off": off, "off2": off2}),
            Conv::Const(y, mo, d, h, mi, s) => json!({"k": "const", "f": [y, cl(*mo), cl(*d), cl(*h), cl(*mi), cl(*s)]}),
        }
    }
}

/// To a value that fits the model checker's integers
fn cl(v: u32) -> i64 {
    i64::from(v).min(i64::from(i32::MAX))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set {
    Fields(i32, u32, u32, u32, u32, u32),
    FieldsD(i32, u32, u32, u32, u32, u32),
    /// Fields, and nanoseconds (1e9 and more are leap seconds)
    Chrono(i32, u32, u32, u32, u32, u32, u32),
    ChronoD(i32, u32, u32, u32, u32, u32, u32),
    /// Extreme calendar times: true for the latest
    ChronoEnd(bool, bool),
    /// Seconds from the epoch, and nanoseconds
    Sys(i64, u32),
    SysD(i64, u32),
    File,
    Dir,
    Link,
    Perm(u32),
    PermStd(u32),
    Ro(bool),
    Crc(u32),
    /// Real metadata: type ("file", "dir", "link"), mode, seconds from the epoch
    Meta(String, u32, i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    New { h: usize },
    Conv { h: usize, conv: Conv },
    Add { h: usize, name: Name, size: u64, seed: u64, crc: Option<u32>, #[serde(default)] set: Vec<Set> },
    Set { h: usize, i: usize, set: Set },
    Clone { h: usize, nh: usize },
    Drop { h: usize },
    List { h: usize },
    Remove { h: usize, how: String, i: usize },
    /// caps: read whole with these buffer sizes; none: only pieces
    Build { h: usize, caps: Vec<usize> },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct BScenario {
    pub id: String,
    pub bops: Vec<BOp>,
    /// Kind of data: "scripted", "vec", "static", "arc", "bytes", "cow"
    #[serde(default)]
    pub kind: String,
}


/// Bytes a content may have to be recorded as a whole
const WHOLE: u64 = 70_000;
const EDGE: u64 = 16;

pub trait BMake: EntryData<Reader: Unpin, Future: Unpin> + Clone + Sized + 'static {
    fn make(size: u64, seed: u64, world: &World) -> Self;
}
impl BMake for Scripted {
    fn make(size: u64, seed: u64, world: &World) -> Self {
        let content = if size <= WHOLE { Content::Bytes(content(seed, size).into()) } else { Content::Pattern(seed, size) };
        Scripted { e: 0, declared: size, content, world: world.clone() }
    }
}
impl BMake for Vec<u8> {
    fn make(size: u64, seed: u64, _: &World) -> Self {
        content(seed, size)
    }
}
impl BMake for &'static [u8] {
    fn make(size: u64, seed: u64, _: &World) -> Self {
        Box::leak(content(seed, size).into_boxed_slice())
    }
}
impl BMake for std::sync::Arc<[u8]> {
    fn make(size: u64, seed: u64, _: &World) -> Self {
        content(seed, size).into()
    }
}
impl BMake for bytes::Bytes {
    fn make(size: u64, seed: u64, _: &World) -> Self {
        content(seed, size).into()
    }
}
impl BMake for std::borrow::Cow<'static, [u8]> {
    fn make(size: u64, seed: u64, _: &World) -> Self {
        std::borrow::Cow::Owned(content(seed, size))
    }
}

/// Real files with chosen type, mode and modification time
struct RealFiles {
    dir: PathBuf,
    n: usize,
}

impl RealFiles {
    fn new() -> Self {
        RealFiles { dir: crate::util::scratch("meta"), n: 0 }
    }
    fn metadata(&mut self, ty: &str, mode: u32, secs: i64) -> Metadata {
        self.n += 1;
        let p = self.dir.join(format!("{}", self.n));
        match ty {
            "dir" => std::fs::create_dir(&p).unwrap(),
            "link" => std::os::unix::fs::symlink("nowhere", &p).unwrap(),
            _ => std::fs::write(&p, b"x").unwrap(),
        }
        if ty != "link" {
            std::fs::set_permissions(&p, Permissions::from_mode(0o700)).unwrap();
            let f = std::fs::File::open(&p).unwrap();
            let _ = f.set_modified(sys_time(secs, 0).unwrap_or(UNIX_EPOCH));
            drop(f);
            std::fs::set_permissions(&p, Permissions::from_mode(mode & 0o7777)).unwrap();
        }
        let m = std::fs::symlink_metadata(&p).unwrap();
        if ty == "dir" {
            std::fs::remove_dir(&p).unwrap();
        } else {
            std::fs::remove_file(&p).unwrap();
        }
        m
    }
}

impl Drop for RealFiles {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn sys_time(secs: i64, nanos: u32) -> Option<SystemTime> {
    let base = if secs >= 0 {
        UNIX_EPOCH.checked_add(Duration::from_secs(secs as u64))
    } else {
        UNIX_EPOCH.checked_sub(Duration::from_secs(secs.unsigned_abs()))
    };
    base?.checked_add(Duration::from_nanos(u64::from(nanos)))
}

/// [day, second of day], days limited to what the model checker can count
fn day_sec(v: &mut Value, secs: i64) {
    v["d"] = json!(secs.div_euclid(86_400).clamp(-100_000_000, 100_000_000));
    v["s"] = json!(secs.rem_euclid(86_400));
}

fn naive(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32, nanos: u32) -> Option<NaiveDateTime> {
    NaiveDate::from_ymd_opt(y, mo, d)?.and_hms_nano_opt(h, mi, s, nanos)
}

struct BRun<D: BMake> {
    bs: BTreeMap<usize, Builder<D>>,
    world: World,
    files: Option<RealFiles>,
    /// Builder -> name -> size
    sizes: BTreeMap<usize, BTreeMap<String, u64>>,
}

impl<D: BMake> BRun<D> {
    fn finish(&self, mut v: Value, h: usize) -> Value {
        v["h"] = json!(h);
        v["all"] = Value::Array(self.bs.iter().map(|(k, b)| json!([k, limbs(b.size()), b.get_entries().len()])).collect());
        v
    }

    /// The event, or nothing if it can't be done here
    fn set_entry(files: &mut Option<RealFiles>, e: &mut BuilderEntry<D>, set: &Set) -> Option<Value> {
        let fj = |y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32| json!([y, cl(mo), cl(d), cl(h), cl(mi), cl(s)]);
        let v = match set {
            Set::Fields(y, mo, d, h, mi, s) => {
                let ok = e.datetime_fields(*y, *mo, *d, *h, *mi, *s).is_some();
                json!({"what": "fields", "f": fj(*y, *mo, *d, *h, *mi, *s), "ok": ok})
            }
            Set::FieldsD(y, mo, d, h, mi, s) => {
                e.datetime_fields_or_default(*y, *mo, *d, *h, *mi, *s);
                json!({"what": "fieldsd", "f": fj(*y, *mo, *d, *h, *mi, *s), "ok": true})
            }
            Set::Chrono(y, mo, d, h, mi, s, n) => {
                let ok = e.datetime(naive(*y, *mo, *d, *h, *mi, *s, *n)?).is_some();
                json!({"what": "chrono", "f": fj(*y, *mo, *d, *h, *mi, *s), "ok": ok})
            }
            Set::ChronoD(y, mo, d, h, mi, s, n) => {
                e.datetime_or_default(naive(*y, *mo, *d, *h, *mi, *s, *n)?);
                json!({"what": "chronod", "f": fj(*y, *mo, *d, *h, *mi, *s), "ok": true})
            }
            Set::ChronoEnd(late, or_default) => {
                let t = if *late { NaiveDateTime::MAX } else { NaiveDateTime::MIN };
                let y = if *late { 262_142 } else { -262_143 };
                if *or_default {
                    e.datetime_or_default(t);
                    json!({"what": "chronod", "f": [y, 1, 1, 0, 0, 0], "ok": true})
                } else {
                    let ok = e.datetime(t).is_some();
                    json!({"what": "chrono", "f": [y, 1, 1, 0, 0, 0], "ok": ok})
                }
            }
            Set::Sys(secs, n) => {
                let ok = e.datetime_system(sys_time(*secs, *n)?).is_some();
                let mut v = json!({"what": "sys", "ok": ok});
                day_sec(&mut v, *secs);
                v
            }
            Set::SysD(secs, n) => {
                e.datetime_system_or_default(sys_time(*secs, *n)?);
                let mut v = json!({"what": "sysd", "ok": true});
                day_sec(&mut v, *secs);
                v
            }
            Set::File => {
                e.file();
                json!({"what": "file", "ok": true})
            }
            Set::Dir => {
                e.directory();
                json!({"what": "dir", "ok": true})
            }
            Set::Link => {
                e.symlink();
                json!({"what": "link", "ok": true})
            }
            Set::Perm(p) => {
                e.unix_permissions(*p);
                json!({"what": "perm", "bits": p & 0xffff, "ok": true})
            }
            Set::PermStd(p) => {
                e.permissions(&Permissions::from_mode(*p));
                json!({"what": "permstd", "bits": p & 0xffff, "ok": true})
            }
            Set::Ro(ro) => {
                e.readonly(*ro);
                json!({"what": "ro", "ro": ro, "ok": true})
            }
            Set::Crc(c) => {
                e.crc32(*c);
                json!({"what": "crc", "crc": pair(*c), "ok": true})
            }
            Set::Meta(ty, mode, secs) => {
                let m = files.get_or_insert_with(RealFiles::new).metadata(ty, *mode, *secs);
                e.metadata(&m);
                let mut v = json!({"what": "meta", "ty": ty, "bits": m.mode() & 0xffff, "ok": true});
                day_sec(&mut v, m.mtime());
                v
            }
        };
        Some(v)
    }

    fn exec(&mut self, op: &BOp, ops: &mut Vec<Value>) {
        match op {
            BOp::New { h } => {
                self.bs.insert(*h, Builder::new());
                self.sizes.insert(*h, BTreeMap::new());
                ops.push(self.finish(json!({"op": "new"}), *h));
            }
            BOp::Conv { h, conv } => {
                let Some(b) = self.bs.get_mut(h) else { return };
                conv.apply(b);
                ops.push(self.finish(json!({"op": "conv", "conv": conv.json()}), *h));
            }
            BOp::Add { h, name, size, seed, crc, set } => {
                let Some(b) = self.bs.get_mut(h) else { return };
                let name = name.make();
                let whole = *size <= WHOLE;
                let edge = |from: u64| (0..EDGE).map(|i| pattern(*seed, from + i)).collect::<Vec<u8>>();
                let mut v = json!({"op": "add", "nx": hex(name.as_bytes()), "nl": name.len(), "size": limbs(*size),
                    "cx": if whole { hex(&content(*seed, *size)) } else { hex(&edge(0)) },
                    "tx": if whole { String::new() } else { hex(&edge(size - EDGE)) }});
                let data = D::make(*size, *seed, &self.world);
                let mut sets = Vec::new();
                let (res, en) = match b.add_entry(name.clone(), data) {
                    Ok(e) => {
                        // Metadata through the reference that was returned
                        if let Some(c) = crc {
                            sets.extend(Self::set_entry(&mut self.files, e, &Set::Crc(*c)));
                        }
                        for s in set {
                            sets.extend(Self::set_entry(&mut self.files, e, s));
                        }
                        self.sizes.entry(*h).or_default().insert(name.clone(), *size);
                        ("ok", true)
                    }
                    Err(AddEntryError::TooLongEntryName { entry_name }) => ("long", entry_name == name),
                    Err(AddEntryError::DuplicateEntryName { entry_name }) => ("dup", entry_name == name),
                    Err(AddEntryError::TooLongZipFile { entry_name }) => ("big", entry_name == name),
                    Err(_) => ("other", false),
                };
                v["res"] = json!(res);
                v["en"] = json!(en);
                ops.push(self.finish(v, *h));
                let i = self.bs[h].get_entries().len();
                for mut s in sets {
                    s["op"] = json!("set");
                    s["i"] = json!(i);
                    ops.push(self.finish(s, *h));
                }
            }
            BOp::Set { h, i, set } => {
                let Some(b) = self.bs.get_mut(h) else { return };
                let Some((_, e)) = b.get_entries_mut().get_index_mut(*i) else { return };
                let Some(mut v) = Self::set_entry(&mut self.files, e, set) else { return };
                v["op"] = json!("set");
                v["i"] = json!(i + 1);
                ops.push(self.finish(v, *h));
            }
            BOp::Clone { h, nh } => {
                let Some(b) = self.bs.get(h) else { return };
                if self.bs.contains_key(nh) {
                    return;
                }
                let b = b.clone();
                self.bs.insert(*nh, b);
                let sizes = self.sizes.get(h).cloned().unwrap_or_default();
                self.sizes.insert(*nh, sizes);
                ops.push(self.finish(json!({"op": "clone", "nh": nh}), *h));
            }
            BOp::Drop { h } => {
                if self.bs.remove(h).is_some() {
                    ops.push(self.finish(json!({"op": "drop"}), *h));
                }
            }
            BOp::List { h } => {
                let Some(b) = self.bs.get(h) else { return };
                let nxs: Vec<String> = b.get_entries().keys().map(|k| hex(k.as_bytes())).collect();
                ops.push(self.finish(json!({"op": "list", "nxs": nxs}), *h));
            }
            BOp::Remove { h, how, i } => {
                let Some(b) = self.bs.get_mut(h) else { return };
                let m = b.get_entries_mut();
                let n = m.len();
                let mut keep: Vec<usize> = (1..=n).collect();
                match how.as_str() {
                    "clear" => {
                        m.clear();
                        keep.clear();
                    }
                    "pop" => {
                        m.pop();
                        keep.pop();
                    }
                    "swap" if *i < n => {
                        m.swap_remove_index(*i);
                        keep.swap_remove(*i);
                    }
                    "shift" if *i < n => {
                        m.shift_remove_index(*i);
                        keep.remove(*i);
                    }
                    "reverse" => {
                        m.reverse();
                        keep.reverse();
                    }
                    _ => return,
                }
                ops.push(self.finish(json!({"op": "remove", "keep": keep}), *h));
            }
            BOp::Build { h, caps } => {
                let Some(b) = self.bs.remove(h) else { return };
                let layout = layout(b.get_entries().keys(), &self.sizes[h]);
                let mut r = Box::pin(b.build());
                let size = r.size();
                let mut v = json!({"op": "build", "size": limbs(size)});
                if caps.is_empty() {
                    let (rd, pieces) = read_pieces(r.as_mut(), &layout);
                    v["rd"] = json!(rd);
                    v["whole"] = json!(false);
                    v["len"] = limbs(0);
                    v["file"] = Value::Array(pieces.iter().map(|(o, b)| json!({"o": limbs(*o), "x": hex(b)})).collect());
                } else {
                    let (rd, bytes) = read_all(r.as_mut(), caps);
                    v["rd"] = json!(rd);
                    v["whole"] = json!(true);
                    v["len"] = limbs(bytes.len() as u64);
                    v["file"] = json!([{"o": limbs(0), "x": hex(&bytes)}]);
                }
                ops.push(self.finish(v, *h));
            }
        }
    }
}

/// Where records are to be expected: (offset, length)
fn layout<'a>(names: impl Iterator<Item = &'a String>, sizes: &BTreeMap<String, u64>) -> Vec<(u64, u64)> {
    let mut res = Vec::new();
    let mut o = 0u64;
    let mut cd = 0u64;
    for name in names {
        let size = sizes.get(name).copied().unwrap_or(0);
        let head = 58 + name.len() as u64;
        let dd = o.wrapping_add(head).wrapping_add(size);
        let next = dd.wrapping_add(24);
        if size <= WHOLE {
            res.push((o, next.wrapping_sub(o)));
        } else {
            res.push((o, head + EDGE));
            res.push((dd.wrapping_sub(EDGE), EDGE + 24));
        }
        o = next;
        cd += 74 + name.len() as u64;
    }
    res.push((o, cd + 98));
    res
}

fn poll<D: EntryData>(r: Pin<&mut Reader<D>>, buf: &mut [u8]) -> Result<usize, &'static str> {
    let mut rb = ReadBuf::new(buf);
    let mut cx = Context::from_waker(Waker::noop());
    match r.poll_read(&mut cx, &mut rb) {
        Poll::Pending => Err("pend"),
        Poll::Ready(Err(_)) => Err("err"),
        Poll::Ready(Ok(())) => Ok(rb.filled().len()),
    }
}

pub fn read_all<D: EntryData>(mut r: Pin<&mut Reader<D>>, caps: &[usize]) -> (&'static str, Vec<u8>) {
    let mut out = Vec::new();
    let mut buf = vec![0u8; caps.iter().copied().max().unwrap()];
    for i in 0.. {
        crate::heartbeat();
        match poll(r.as_mut(), &mut buf[..caps[i % caps.len()]]) {
            Ok(0) => return ("ok", out),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) => return (e, out),
        }
        if out.len() > 64 << 20 {
            return ("endless", vec![]);
        }
    }
    unreachable!()
}

pub fn read_pieces<D: EntryData>(mut r: Pin<&mut Reader<D>>, layout: &[(u64, u64)]) -> (&'static str, Vec<(u64, Vec<u8>)>) {
    let mut res = Vec::new();
    for (o, n) in layout {
        r.as_mut().seek_from_start_pinned(*o);
        let mut piece = Vec::new();
        let mut buf = vec![0u8; *n as usize];
        while piece.len() < *n as usize {
            let left = *n as usize - piece.len();
            match poll(r.as_mut(), &mut buf[..left]) {
                Ok(0) => break,
                Ok(k) => piece.extend_from_slice(&buf[..k]),
                Err(e) => return (e, res),
            }
        }
        res.push((*o, piece));
    }
    ("ok", res)
}

fn run_typed<D: BMake>(sc: &BScenario) -> Value {
    let world: World = Rc::new(RefCell::new(WorldState::default()));
    let mut ops = Vec::new();
    let mut run: BRun<D> = BRun { bs: BTreeMap::new(), world, files: None, sizes: BTreeMap::new() };
    for op in &sc.bops {
        crate::heartbeat();
        run.world.borrow_mut().calls = 0;
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| run.exec(op, &mut ops))) {
            let msg = crate::rexec::panic_text(&*p);
            ops.push(json!({"op": "panic", "h": 0, "what": format!("{op:?}").chars().take(100).collect::<String>(), "msg": msg, "all": []}));
            let files = run.files.take();
            std::mem::forget(run);
            drop(files);
            return json!({"id": sc.id, "ops": ops});
        }
    }
    json!({"id": sc.id, "ops": ops})
}

pub fn run(out: &mut Out, sc: &BScenario) {
    let desc = serde_json::to_string(sc).unwrap();
    crate::set_current(&desc);
    let t = match sc.kind.as_str() {
        "vec" => run_typed::<Vec<u8>>(sc),
        "static" => run_typed::<&'static [u8]>(sc),
        "arc" => run_typed::<std::sync::Arc<[u8]>>(sc),
        "bytes" => run_typed::<bytes::Bytes>(sc),
        "cow" => run_typed::<std::borrow::Cow<'static, [u8]>>(sc),
        _ => run_typed::<Scripted>(sc),
    };
    for o in t["ops"].as_array().unwrap() {
        let op = o["op"].as_str().unwrap();
        match op {
            "add" => out.count(&format!("add {}", o["res"].as_str().unwrap())),
            "set" => out.count(&format!("set {} {}", o["what"].as_str().unwrap(), o["ok"].as_bool().unwrap())),
            _ => out.count(op),
        }
    }
    out.spec(&sc.id, &desc);
    out.trace(&t);
}

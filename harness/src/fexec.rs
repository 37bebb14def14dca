//! Archives made from file systems: runs histories in a scratch directory and records what happened.
use crate::bexec::Conv;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::ffi::{CString, OsStr, OsString};
use std::fs::Metadata;
use std::io::SeekFrom;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use tokio::io::{AsyncReadExt, AsyncSeekExt};
use zippity::{AddDirectoryRecursiveError, AddEntryError, AddFilesystemEntryError, Builder, FilesystemEntry, ReadError, Reader};

const NOBODY: u32 = 65534;

/// Paths are texts in which U+F700 .. U+F7FF stand for single bytes
pub fn raw(p: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for c in p.chars() {
        match c as u32 {
            x @ 0xF700..=0xF7FF => v.push((x - 0xF700) as u8),
            _ => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    v
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Dir,
    /// Size, seed of content
    File(u64, u64),
    /// Content, in hexadecimal
    Lit(String),
    /// Sparse file of this size
    Sparse(u64),
    /// Target as written, and the path it denotes
    Link(String, String),
    Pipe,
    Socket,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    Mk { p: String, k: Kind, #[serde(default)] mode: Option<u32>, time: Option<(i64, u32)> },
    /// A chain of directories, too deep for a path
    Deep { p: String, len: usize, n: usize },
    Rm { p: String },
    New { h: usize },
    Conv { h: usize, conv: Conv },
    Clone { h: usize, nh: usize },
    Drop { h: usize },
    /// `spell`: how the directory is written, {} being the scratch directory; relative ones are executed inside of it
    AddRec { h: usize, root: String, spell: String, #[serde(default)] pre: Option<String>, #[serde(default)] user: bool },
    /// Remembers metadata of an object
    Md { slot: usize, p: String, follow: bool },
    AddOne { h: usize, slot: usize, p: String, name: String },
    Build { h: usize, caps: Vec<usize>, seed: u64, #[serde(default)] user: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct FScenario {
    #[serde(default)]
    pub id: String,
    pub fops: Vec<FOp>,
    /// In memory, for very long sparse files
    #[serde(default)]
    pub shm: bool,
}

const WHOLE: u64 = 70_000;
const EDGE: u64 = 16;

struct Obj {
    k: Kind,
    time: Option<(i64, u32)>,
    mode: Option<u32>,
    dirty: bool,
}

struct Run {
    rt: tokio::runtime::Runtime,
    dir: PathBuf,
    objs: BTreeMap<String, Obj>,
    changed: bool,
    slots: BTreeMap<usize, (Metadata, Value)>,
    bs: BTreeMap<usize, Builder<FilesystemEntry>>,
}

impl Drop for Run {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// Content of files must not depend on their being read as a whole
fn content(seed: u64, size: u64) -> Vec<u8> {
    crate::world::plain(seed, size)
}

fn comps(p: &str) -> Vec<Vec<u8>> {
    p.split('/').filter(|c| !c.is_empty()).map(raw).collect()
}

fn comps_json(p: &str) -> Value {
    Value::Array(comps(p).iter().map(|c| json!(hex(c))).collect())
}

fn kind_of(m: &Metadata) -> &'static str {
    let t = m.file_type();
    if t.is_dir() {
        "dir"
    } else if t.is_symlink() {
        "link"
    } else if t.is_file() {
        "file"
    } else {
        "other"
    }
}

fn md_json(m: &Metadata) -> Value {
    json!({"k": kind_of(m), "m": m.mode() & 0xffff, "d": m.mtime().div_euclid(86_400), "s": m.mtime().rem_euclid(86_400),
        "size": limbs(if kind_of(m) == "file" || kind_of(m) == "link" { m.len() } else { 0 })})
}

/// Runs as the ordinary user, if that is possible
fn as_user<T>(user: bool, f: impl FnOnce() -> T) -> T {
    if !user {
        return f();
    }
    // Affects all threads of the process
    assert_eq!(unsafe { libc::seteuid(NOBODY) }, 0, "HARNESS: seteuid");
    let r = catch_unwind(AssertUnwindSafe(f));
    assert_eq!(unsafe { libc::seteuid(0) }, 0, "HARNESS: seteuid back");
    match r {
        Ok(v) => v,
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Can we become an ordinary user, and is the scratch directory accessible then?
pub fn can_be_user() -> bool {
    let d = scratch("user");
    let ok = unsafe {
        if libc::geteuid() != 0 || libc::seteuid(NOBODY) != 0 {
            false
        } else {
            let listed = std::fs::read_dir(&d).is_ok();
            libc::seteuid(0) == 0 && listed
        }
    };
    let _ = std::fs::remove_dir(&d);
    ok
}

impl Run {
    fn at(&self, p: &str) -> PathBuf {
        let mut d = self.dir.clone();
        for c in comps(p) {
            d.push(OsStr::from_bytes(&c));
        }
        d
    }

    fn make(&mut self, p: &str, k: &Kind) {
        let at = self.at(p);
        match k {
            Kind::Dir => std::fs::create_dir(&at).unwrap(),
            Kind::File(size, seed) => std::fs::write(&at, content(*seed, *size)).unwrap(),
            Kind::Lit(x) => std::fs::write(&at, unhex(x)).unwrap(),
            Kind::Sparse(size) => std::fs::File::create(&at).unwrap().set_len(*size).unwrap(),
            Kind::Link(target, _) => std::os::unix::fs::symlink(OsString::from_vec(raw(target)), &at).unwrap(),
            Kind::Pipe => {
                let c = CString::new(at.as_os_str().as_bytes()).unwrap();
                assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o644) }, 0);
            }
            Kind::Socket => {
                // Its path must be short
                std::env::set_current_dir(at.parent().unwrap()).unwrap();
                drop(std::os::unix::net::UnixListener::bind(at.file_name().unwrap()).unwrap());
                std::env::set_current_dir(&self.dir).unwrap();
            }
        }
        let _ = std::os::unix::fs::lchown(&at, Some(NOBODY), Some(NOBODY));
    }

    /// Applies modes and times, and describes the scratch directory
    fn snapshot(&mut self, ops: &mut Vec<Value>) {
        if !self.changed {
            return;
        }
        self.changed = false;
        let paths: Vec<String> = self.objs.keys().cloned().collect();
        for p in paths.iter().rev() {
            let o = &self.objs[p];
            let at = self.at(p);
            if at.as_os_str().len() > 4000 {
                continue;
            }
            if let (Some(m), true) = (o.mode, o.dirty) {
                if !matches!(o.k, Kind::Link(..)) {
                    std::fs::set_permissions(&at, std::fs::Permissions::from_mode(m)).unwrap();
                }
            }
            if let Some((secs, nanos)) = o.time {
                let c = CString::new(at.as_os_str().as_bytes()).unwrap();
                let t = libc::timespec { tv_sec: secs, tv_nsec: i64::from(nanos) };
                unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
            }
        }
        let mut list = Vec::new();
        for p in &paths {
            let o = &self.objs[p];
            let at = self.at(p);
            let m = if at.as_os_str().len() > 4000 { deep_metadata(&self.dir, p) } else { std::fs::symlink_metadata(&at).unwrap() };
            let mut v = md_json(&m);
            let cs = comps(p);
            v["p"] = comps_json(p);
            v["nm"] = json!(cs.last().map_or(String::new(), |c| hex(String::from_utf8_lossy(c).as_bytes())));
            v["to"] = json!([]);
            v["cx"] = json!("");
            v["tx"] = json!("");
            match &o.k {
                Kind::File(size, seed) => {
                    v["size"] = limbs(*size);
                    let c = content(*seed, *size);
                    if *size <= WHOLE {
                        v["cx"] = json!(hex(&c));
                    } else {
                        v["cx"] = json!(hex(&c[..EDGE as usize]));
                        v["tx"] = json!(hex(&c[c.len() - EDGE as usize..]));
                    }
                }
                Kind::Lit(x) => {
                    v["size"] = limbs(x.len() as u64 / 2);
                    v["cx"] = json!(x);
                }
                Kind::Sparse(size) => {
                    v["size"] = limbs(*size);
                    v["cx"] = json!("00".repeat(EDGE as usize));
                    v["tx"] = json!("00".repeat(EDGE as usize));
                }
                Kind::Link(target, to) => {
                    v["cx"] = json!(hex(&raw(target)));
                    v["size"] = limbs(raw(target).len() as u64);
                    v["to"] = comps_json(to);
                }
                _ => {}
            }
            list.push(v);
        }
        for o in self.objs.values_mut() {
            o.dirty = false;
        }
        ops.push(self.finish(json!({"op": "fs", "objs": list}), 0));
    }

    fn finish(&self, mut v: Value, h: usize) -> Value {
        v["h"] = json!(h);
        v["all"] = Value::Array(self.bs.iter().map(|(k, b)| json!([k, limbs(b.size()), b.get_entries().len()])).collect());
        v
    }

    fn names(&self, h: usize) -> Value {
        Value::Array(self.bs[&h].get_entries().keys().map(|k| json!(hex(k.as_bytes()))).collect())
    }

    fn exec(&mut self, op: &FOp, ops: &mut Vec<Value>) {
        if !matches!(op, FOp::Mk { .. } | FOp::Rm { .. } | FOp::Deep { .. }) {
            self.snapshot(ops);
        }
        match op {
            FOp::Mk { p, k, mode, time } => {
                if let Some(old) = self.objs.get(p) {
                    // Change in place, if possible
                    let same = matches!((&old.k, k), (Kind::File(..) | Kind::Lit(..), Kind::File(..) | Kind::Lit(..)) | (Kind::Dir, Kind::Dir));
                    if !same {
                        self.remove(p);
                    }
                }
                if !(*k == Kind::Dir && self.objs.contains_key(p)) {
                    self.make(p, k);
                }
                self.objs.insert(p.clone(), Obj { k: k.clone(), mode: *mode, time: *time, dirty: true });
                self.changed = true;
            }
            FOp::Deep { p, len, n } => {
                std::env::set_current_dir(self.at(p)).unwrap();
                let mut path = p.clone();
                for i in 0..*n {
                    let c = format!("{i}").repeat(*len)[..*len].to_string();
                    std::fs::create_dir(&c).unwrap();
                    let _ = std::os::unix::fs::lchown(&c, Some(NOBODY), Some(NOBODY));
                    std::env::set_current_dir(&c).unwrap();
                    path = format!("{path}/{c}");
                    self.objs.insert(path.clone(), Obj { k: Kind::Dir, mode: None, time: None, dirty: false });
                }
                std::env::set_current_dir(&self.dir).unwrap();
                self.changed = true;
            }
            FOp::Rm { p } => {
                self.remove(p);
                self.changed = true;
            }
            FOp::New { h } => {
                self.bs.insert(*h, Builder::new());
                ops.push(self.finish(json!({"op": "new"}), *h));
            }
            FOp::Conv { h, conv } => {
                conv.apply(self.bs.get_mut(h).unwrap());
                ops.push(self.finish(json!({"op": "conv", "conv": conv.json()}), *h));
            }
            FOp::Clone { h, nh } => {
                let b = self.bs[h].clone();
                self.bs.insert(*nh, b);
                ops.push(self.finish(json!({"op": "clone", "nh": nh}), *h));
            }
            FOp::Drop { h } => {
                self.bs.remove(h);
                ops.push(self.finish(json!({"op": "drop"}), *h));
            }
            FOp::AddRec { h, root, spell, pre, user } => {
                let text = raw(spell);
                let mark = text.windows(2).position(|w| w == b"{}");
                let path = match mark {
                    Some(i) => [&text[..i], self.dir.as_os_str().as_bytes(), &text[i + 2..]].concat(),
                    None => text,
                };
                let base = path.len();
                let path = PathBuf::from(OsString::from_vec(path));
                let b = self.bs.get_mut(h).unwrap();
                let rt = &self.rt;
                let res = as_user(*user, || rt.block_on(b.add_directory_recursive(path.clone(), pre.as_deref())));
                let (res, who) = match res {
                    Ok(()) => ("ok", String::new()),
                    Err(AddDirectoryRecursiveError::NotADirectory { path: p, metadata }) => {
                        (if p == path && !metadata.is_dir() { "notdir" } else { "other" }, String::new())
                    }
                    Err(AddDirectoryRecursiveError::AddEntryError(e)) => add_error(e),
                    Err(AddDirectoryRecursiveError::IOError(_)) => ("io", String::new()),
                    Err(_) => ("other", String::new()),
                };
                let pre: Vec<String> = pre.iter().map(|p| hex(p.as_bytes())).collect();
                ops.push(self.finish(
                    json!({"op": "addrec", "root": comps_json(root), "base": base, "pre": pre, "user": user, "res": res, "who": who, "nxs": self.names(*h)}),
                    *h,
                ));
            }
            FOp::Md { slot, p, follow } => {
                let at = self.at(p);
                let m = if *follow { std::fs::metadata(&at) } else { std::fs::symlink_metadata(&at) };
                let Ok(m) = m else { return };
                let v = md_json(&m);
                self.slots.insert(*slot, (m, v));
            }
            FOp::AddOne { h, slot, p, name } => {
                let Some((m, md)) = self.slots.get(slot) else { return };
                let at = self.at(p);
                let b = self.bs.get_mut(h).unwrap();
                let (res, who) = match self.rt.block_on(b.add_filesystem_entry(name.clone(), at, m)) {
                    Ok(_) => ("ok", String::new()),
                    Err(AddFilesystemEntryError::AddEntryError(e)) => add_error(e),
                    Err(AddFilesystemEntryError::IOError(_)) => ("io", String::new()),
                    Err(_) => ("other", String::new()),
                };
                ops.push(self.finish(
                    json!({"op": "addone", "p": comps_json(p), "nx": hex(name.as_bytes()), "md": md, "res": res, "who": who, "nxs": self.names(*h)}),
                    *h,
                ));
            }
            FOp::Build { h, caps, seed, user } => {
                let Some(b) = self.bs.remove(h) else { return };
                let rt = &self.rt;
                let copy = b.clone();
                let mut v = json!({"op": "buildfs", "user": user});
                as_user(*user, || {
                    rt.block_on(async {
                        let mut r = Box::pin(b.build());
                        let size = r.size();
                        v["size"] = limbs(size);
                        let (rd, bytes, err) = read_all(r.as_mut(), caps).await;
                        v["rd"] = json!(rd);
                        v["len"] = limbs(bytes.len() as u64);
                        v["file"] = json!([{"o": limbs(0), "x": hex(&bytes)}]);
                        if !err.is_null() {
                            v["err"] = err;
                        }
                        let mut rand = Vec::new();
                        if rd == "ok" {
                            let mut copy = copy;
                            if seed % 2 == 0 {
                                // With known checksums
                                for (n, c) in r.crc32s() {
                                    if let Some(e) = copy.get_entries_mut().get_mut(n) {
                                        e.crc32(c);
                                    }
                                }
                            }
                            rand = read_around(copy, size, *seed).await;
                        }
                        v["rand"] = Value::Array(rand);
                    });
                });
                ops.push(self.finish(v, *h));
            }
        }
    }

    fn remove(&mut self, p: &str) {
        let at = self.at(p);
        let Some(o) = self.objs.remove(p) else { return };
        if o.k == Kind::Dir {
            std::fs::remove_dir_all(&at).unwrap();
            let below = format!("{p}/");
            self.objs.retain(|q, _| !q.starts_with(&below));
        } else {
            std::fs::remove_file(&at).unwrap();
        }
    }
}

fn deep_metadata(dir: &Path, p: &str) -> Metadata {
    std::env::set_current_dir(dir).unwrap();
    for c in comps(p) {
        std::env::set_current_dir(OsStr::from_bytes(&c)).unwrap();
    }
    let m = std::fs::symlink_metadata(".").unwrap();
    std::env::set_current_dir(dir).unwrap();
    m
}

fn add_error(e: AddEntryError) -> (&'static str, String) {
    let (k, n) = match e {
        AddEntryError::TooLongEntryName { entry_name } => ("long", entry_name),
        AddEntryError::DuplicateEntryName { entry_name } => ("dup", entry_name),
        AddEntryError::TooLongZipFile { entry_name } => ("big", entry_name),
        _ => ("other", String::new()),
    };
    (k, hex(n.as_bytes()))
}

fn error_json(e: &std::io::Error) -> Value {
    let mut v = json!({"k": "io", "nx": "", "x": limbs(0), "y": limbs(0), "txt": err_text(e)});
    if let Some(inner) = e.get_ref().and_then(|x| x.downcast_ref::<ReadError>()) {
        match inner {
            ReadError::SizeMismatch { entry_name, expected_size, actual_size } => {
                v["k"] = json!("size");
                v["nx"] = json!(hex(entry_name.as_bytes()));
                v["x"] = limbs(*expected_size);
                v["y"] = limbs(*actual_size);
            }
            _ => v["k"] = json!("other"),
        }
    }
    v
}

/// Reads on after failures, until there are several in a row
async fn read_all(mut r: Pin<&mut Reader<FilesystemEntry>>, caps: &[usize]) -> (&'static str, Vec<u8>, Value) {
    let mut out = Vec::new();
    let mut buf = vec![0u8; caps.iter().copied().max().unwrap()];
    let mut errs = 0;
    let mut first = Value::Null;
    for i in 0.. {
        crate::heartbeat();
        match r.read(&mut buf[..caps[i % caps.len()]]).await {
            Ok(0) => return (if errs == 0 { "ok" } else { "ok after err" }, out, first),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) => {
                errs += 1;
                if first.is_null() {
                    first = error_json(&e);
                }
                if errs == 4 {
                    return ("err", out, first);
                }
            }
        }
        if out.len() > 64 << 20 {
            return ("endless", vec![], first);
        }
    }
    unreachable!()
}

/// Pieces read at random places, each with a seek in front
async fn read_around(b: Builder<FilesystemEntry>, size: u64, seed: u64) -> Vec<Value> {
    let mut rng = Rng::new(seed);
    let mut res = Vec::new();
    let mut r = Box::pin(b.build());
    for i in 0..12 {
        if i == 6 {
            r = Box::pin(Reader::clone(&r));
        }
        let o = rng.below(size + 2);
        let n = rng.range(1, 300) as usize;
        let mut piece = vec![0u8; n];
        let mut got = 0;
        let mut ok = r.seek(SeekFrom::Start(o)).await.is_ok_and(|p| p == o);
        while ok && got < n {
            match r.read(&mut piece[got..]).await {
                Ok(0) => break,
                Ok(k) => got += k,
                Err(_) => ok = false,
            }
        }
        res.push(json!({"o": limbs(o), "x": hex(&piece[..got]), "r": if ok { "ok" } else { "err" }}));
    }
    res
}

pub fn run(out: &mut Out, sc: &FScenario) {
    let desc = serde_json::to_string(sc).unwrap();
    crate::set_current(&desc);
    let rt = tokio::runtime::Builder::new_current_thread().max_blocking_threads(4).build().unwrap();
    let dir = if sc.shm {
        let d = PathBuf::from("/dev/shm").join(format!("zharness-{}-{}", std::process::id(), sc.id));
        std::fs::create_dir_all(&d).unwrap();
        d
    } else {
        scratch("fs")
    };
    let _ = std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755));
    let _ = std::os::unix::fs::chown(&dir, Some(NOBODY), Some(NOBODY));
    std::env::set_current_dir(&dir).unwrap();
    let mut run = Run { rt, dir, objs: BTreeMap::new(), changed: true, slots: BTreeMap::new(), bs: BTreeMap::new() };
    run.objs.insert(String::new(), Obj { k: Kind::Dir, time: None, mode: None, dirty: false });
    let mut ops = Vec::new();
    for op in &sc.fops {
        crate::heartbeat();
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| run.exec(op, &mut ops))) {
            let msg = crate::rexec::panic_text(&*p);
            if crate::PANIC_IS_OURS.load(std::sync::atomic::Ordering::Relaxed) {
                eprintln!("{msg} in {}", sc.id);
                drop(run);
                std::process::exit(98);
            }
            ops.push(json!({"op": "panic", "h": 0, "what": format!("{op:?}").chars().take(100).collect::<String>(), "msg": msg, "all": []}));
            break;
        }
    }
    drop(run);
    for o in &ops {
        let op = o["op"].as_str().unwrap();
        match op {
            "addrec" | "addone" => out.count(&format!("{op} {}", o["res"].as_str().unwrap())),
            "buildfs" => {
                let what = o["err"]["k"].as_str().map_or(String::new(), |k| format!(" {k}"));
                out.count(&format!("read {}{what}", o["rd"].as_str().unwrap()));
            }
            _ => out.count(op),
        }
    }
    out.spec(&sc.id, &desc);
    out.trace(&json!({"id": sc.id, "ops": ops}));
}

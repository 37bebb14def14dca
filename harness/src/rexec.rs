//! Runs reader scenarios against the real code and records what happened.
use crate::util::*;
use crate::world::*;
use futures_core::Stream;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::SeekFrom;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::{Builder, BytesStream, EntryData, ReadError, Reader};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EntrySpec {
    pub name: String,
    pub seed: u64,
    pub size: u64,
    pub actual: u64,
    /// "none", "right", "wrong"
    pub crc: String,
}

impl EntrySpec {
    pub fn new(name: &str, size: u64, crc: &str, seed: u64) -> Self {
        EntrySpec { name: name.into(), seed, size, actual: size, crc: crc.into() }
    }
    pub fn content(&self, len: u64) -> Content {
        if len <= 1 << 20 {
            Content::Bytes(self.bytes(len).into())
        } else {
            Content::Wide(self.seed, len)
        }
    }
    pub fn data(&self) -> Vec<u8> {
        self.bytes(self.actual)
    }
    pub fn bytes(&self, len: u64) -> Vec<u8> {
        // What is delivered of data of a wrong length is a beginning of what was declared, or the other way round
        if self.actual == self.size && len <= 1 << 20 { content(self.seed, len) } else { plain(self.seed, len) }
    }
    pub fn given(&self) -> Option<u32> {
        match self.crc.as_str() {
            "none" => None,
            _ => {
                let right = if self.actual <= 1 << 20 { crc32(&self.data()) } else { 0x1234_5678 };
                Some(if self.crc == "right" {
                    right
                } else if right != 0 && self.seed % 3 == 0 {
                    0
                } else {
                    right ^ 0x0100_0040
                })
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ArchSpec {
    pub entries: Vec<EntrySpec>,
    /// "scripted" or "vec"
    pub kind: String,
    /// The archive is too big to be read as a whole
    #[serde(default)]
    pub giant: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "lowercase", tag = "op")]
pub enum Op {
    Read { h: usize, cap: usize, #[serde(default)] q: Vec<Resp> },
    Next { h: usize, #[serde(default)] q: Vec<Resp> },
    Drain { h: usize, caps: Vec<usize>, #[serde(default)] qs: Vec<Vec<Resp>> },
    Seek { h: usize, to: u64, via: String },
    /// Relative seek with arbitrary offset; `off` as decimal text, because of its range
    Raw { h: usize, org: String, off: String },
    Clone { h: usize, nh: usize },
    Take { h: usize, nh: usize },
    Stream { h: usize },
    Unstream { h: usize },
    Drop { h: usize },
    Crcs { h: usize },
    Size { h: usize },
    /// Turns a reader into an HTTP response to be, possibly with a hand-back channel
    Adapt { h: usize, chan: bool },
    /// Answers a request, with the given Range header (hexadecimal) if any
    Respond { h: usize, hdr: Option<String> },
    /// Looks into the hand-back channel of `h`
    Recv { h: usize, nh: usize },
    /// Drops the receiving side of the channel
    Hangup { h: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Scenario {
    pub id: String,
    pub ops: Vec<Op>,
    #[serde(default)]
    pub wide: bool,
    /// What the specification's own run predicted, [result, bytes] for each read, if it made one
    #[serde(default)]
    pub pred: Vec<(String, i64)>,
    /// Answers of the sources, used when an operation does not bring its own
    #[serde(default)]
    pub script: Vec<Resp>,
}

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

enum H<D: EntryData + 'static> {
    R(Pin<Box<Reader<D>>>),
    S(Pin<Box<BytesStream<D>>>),
    #[cfg(feature = "web")]
    A(zippity::ActixWebAdapter<D>),
    #[cfg(feature = "web")]
    B(crate::web::Response),
}

type Channel<D> = tokio::sync::oneshot::Receiver<Reader<D>>;

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().max_blocking_threads(4).build().unwrap();
    /// Where the files of the present scenario are
    static FILES: RefCell<Option<FileDir>> = const { RefCell::new(None) };
}

pub struct FileDir(pub std::path::PathBuf);
impl Drop for FileDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub trait Make: EntryData<Reader: Unpin, Future: Unpin> + Clone + Sized + 'static {
    /// Needs a runtime, and has it wait
    const BLOCKS: bool = false;
    fn make(e: usize, spec: &EntrySpec, len: u64, world: &World) -> Self;
}

impl Make for Scripted {
    fn make(e: usize, spec: &EntrySpec, len: u64, world: &World) -> Self {
        Scripted { e, declared: spec.size, content: spec.content(len), world: world.clone() }
    }
}

impl Make for Vec<u8> {
    fn make(_: usize, spec: &EntrySpec, len: u64, _: &World) -> Self {
        spec.bytes(len)
    }
}

/// Real files: added with the declared size, then changed to the actual one
impl Make for zippity::FilesystemEntry {
    const BLOCKS: bool = true;
    fn make(e: usize, spec: &EntrySpec, len: u64, _: &World) -> Self {
        let path = FILES.with(|f| f.borrow().as_ref().expect("scratch directory").0.join(format!("{e}")));
        std::fs::write(&path, spec.bytes(spec.size)).unwrap();
        let md = std::fs::symlink_metadata(&path).unwrap();
        if len != spec.size {
            std::fs::write(&path, spec.bytes(len)).unwrap();
        }
        RT.with(|rt| rt.block_on(zippity::FilesystemEntry::with_metadata(path, &md)).unwrap())
    }
}

/// Polls once, or for sources that need a runtime until the answer is there (unless just a single poll is asked for)
fn poll_it<D: Make, T>(cx: &mut Context<'_>, once: bool, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Poll<T> {
    if !D::BLOCKS {
        return f(cx);
    }
    RT.with(|rt| {
        if once {
            let _guard = rt.enter();
            f(cx)
        } else {
            Poll::Ready(rt.block_on(std::future::poll_fn(|cx| f(cx))))
        }
    })
}

pub fn builder<D: Make>(spec: &ArchSpec, world: &World, exact: bool) -> Builder<D> {
    let mut b = Builder::<D>::new();
    for (i, e) in spec.entries.iter().enumerate() {
        let len = if exact { e.size } else { e.actual };
        let d = D::make(i + 1, e, len, world);
        let be = b.add_entry(e.name.clone(), d).expect("scenario entries are addable");
        let given = if exact && (e.crc == "wrong" || e.size != e.actual) { None } else { e.given() };
        if let Some(c) = given {
            be.crc32(c);
        }
    }
    b
}

/// Archive description for the specification. `reference` is what a plain sequential read delivers.
/// Index 1 is always the empty archive.
pub fn arch_json(spec: &ArchSpec, with_data: bool) -> Value {
    let entries: Vec<Value> = spec
        .entries
        .iter()
        .map(|e| {
            let mut v = json!({
                "nl": e.name.len(), "size": small(e.size), "actual": small(e.actual), "gk": e.crc,
                "given": pair(e.given().unwrap_or(0)),
            });
            if spec.giant {
                v["nx"] = json!(hex(e.name.as_bytes()));
                v["sizel"] = json!(limbs(e.size));
                v["actuall"] = json!(limbs(e.actual));
                v["seed"] = json!(e.seed);
            }
            if (e.actual != e.size || with_data || spec.giant) && e.actual <= 1 << 20 {
                v["data"] = json!(hex(&e.data()));
            }
            v
        })
        .collect();
    let (res, bytes, size) = reference(spec);
    json!({"entries": entries, "refres": res, "ref": hex(&bytes), "size": small(size), "sizel": limbs(size), "giant": spec.giant})
}

pub fn reference(spec: &ArchSpec) -> (String, Vec<u8>, u64) {
    let run = || -> (String, Vec<u8>, u64) {
        let world: World = Rc::new(RefCell::new(WorldState::default()));
        let mut out = Vec::new();
        let mut r = Box::pin(builder::<Scripted>(spec, &world, true).build());
        let size = r.size();
        if spec.giant {
            return ("ok".into(), out, size);
        }
        let mut buf = vec![0u8; 1 << 16];
        loop {
            world.borrow_mut().calls = 0;
            let mut rb = ReadBuf::new(&mut buf);
            let mut cx = Context::from_waker(Waker::noop());
            match r.as_mut().poll_read(&mut cx, &mut rb) {
                Poll::Pending => return ("pend".into(), out, size),
                Poll::Ready(Err(_)) => return ("err".into(), out, size),
                Poll::Ready(Ok(())) => {
                    if rb.filled().is_empty() {
                        return ("ok".into(), out, size);
                    }
                    out.extend_from_slice(rb.filled());
                    if out.len() > 64 << 20 {
                        return ("endless".into(), vec![], size);
                    }
                }
            }
        }
    };
    match catch_unwind(AssertUnwindSafe(run)) {
        Ok(v) => v,
        Err(_) => ("panic".into(), Vec::new(), 0),
    }
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

struct Run<D: Make> {
    handles: BTreeMap<usize, H<D>>,
    names: BTreeMap<String, usize>,
    world: World,
    wide: bool,
    /// Hand-back channels, by the handle that was answered with
    channels: BTreeMap<usize, Channel<D>>,
    /// More than any way of reading the file to its end delivers
    limit: u64,
}

const SENTINEL: [u8; 3] = [0xA5, 0x5A, 0xC3];

impl<D: Make> Run<D> {
    fn tell(&self, h: usize) -> u64 {
        match &self.handles[&h] {
            H::R(r) => r.tell(),
            H::S(s) => s.reader_ref().tell(),
            #[cfg(feature = "web")]
            _ => 0,
        }
    }

    /// Position as recorded: -3 if it cannot be seen
    fn shown(&self, h: usize) -> i64 {
        if self.plain(h) { small(self.tell(h)) } else { -3 }
    }

    fn streamlike(&self, h: usize) -> bool {
        match self.handles.get(&h) {
            Some(H::S(_)) => true,
            // A failed body is not polled again (actix-web's wrapper does not survive that)
            #[cfg(feature = "web")]
            Some(H::B(r)) => !r.failed(),
            _ => false,
        }
    }

    /// Is it a reader or stream?
    fn plain(&self, h: usize) -> bool {
        matches!(self.handles.get(&h), Some(H::R(_) | H::S(_)))
    }

    fn err_json(&self, e: &std::io::Error) -> Value {
        let base = json!({"k": "other", "e": 0, "x": limbs(0), "y": limbs(0), "txt": err_text(e)});
        if let Some(inner) = e.get_ref().and_then(|x| x.downcast_ref::<ReadError>()) {
            let mut v = base;
            match inner {
                ReadError::SizeMismatch { entry_name, expected_size, actual_size } => {
                    v["k"] = json!("size");
                    v["e"] = json!(self.names.get(entry_name).copied().unwrap_or(0));
                    v["x"] = limbs(*expected_size);
                    v["y"] = limbs(*actual_size);
                }
                ReadError::Crc32Mismatch { entry_name, expected_crc, actual_crc } => {
                    v["k"] = json!("crc");
                    v["e"] = json!(self.names.get(entry_name).copied().unwrap_or(0));
                    v["x"] = limbs(u64::from(*expected_crc));
                    v["y"] = limbs(u64::from(*actual_crc));
                }
                ReadError::SeekingBeforeStart => v["k"] = json!("before"),
                _ => {}
            }
            return v;
        }
        let mut v = base;
        if self.world.borrow().last_err == Some((e.kind(), e.to_string())) {
            v["k"] = json!("src");
        }
        v
    }

    fn begin(&self, q: &[Resp]) {
        let mut w = self.world.borrow_mut();
        w.queue = q.iter().copied().collect();
        w.calls = 0;
        w.log.clear();
        w.waker = None;
        w.pended = false;
        w.last_err = None;
    }

    fn finish(&self, mut v: Value, h: usize) -> Value {
        let mut w = self.world.borrow_mut();
        v["src"] = Value::Array(w.log.drain(..).map(|e| e.json()).collect());
        w.queue.clear();
        drop(w);
        v["h"] = json!(h);
        if self.handles.contains_key(&h) {
            v["tell"] = json!(self.shown(h));
            if self.wide {
                v["tl"] = limbs(self.tell(h));
            }
        } else {
            v["tell"] = json!(-2);
        }
        v["all"] = Value::Array(self.handles.keys().map(|k| json!([k, self.shown(*k)])).collect());
        v
    }

    fn poll_read(&mut self, h: usize, cap: usize, q: &[Resp]) -> Value {
        self.begin(q);
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        let Some(H::R(r)) = self.handles.get_mut(&h) else { panic!("HARNESS: no reader {h}") };
        let mut buf = vec![0xEEu8; cap + SENTINEL.len()];
        let mut rb = ReadBuf::new(&mut buf);
        rb.put_slice(&SENTINEL);
        let res = poll_it::<D, _>(&mut cx, q.first() == Some(&Resp::P), |cx| r.as_mut().poll_read(cx, &mut rb));
        let sentinel_ok = rb.filled().starts_with(&SENTINEL);
        let out = rb.filled().get(SENTINEL.len()..).unwrap_or(&[]).to_vec();
        if let Some(w) = self.world.borrow_mut().waker.take() {
            w.wake();
        }
        let (res, err) = match res {
            Poll::Pending => ("pend", Value::Null),
            Poll::Ready(Ok(())) => ("ok", Value::Null),
            Poll::Ready(Err(e)) => ("err", self.err_json(&e)),
        };
        let res = if sentinel_ok { res } else { "corrupt" };
        let mut v = json!({"op": "read", "cap": cap, "res": res, "n": out.len(), "hex": hex(&out), "woke": flag.0.load(Ordering::SeqCst)});
        if !err.is_null() {
            v["err"] = err;
        }
        self.finish(v, h)
    }

    fn poll_next(&mut self, h: usize, q: &[Resp]) -> Value {
        self.begin(q);
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        let (op, res) = match self.handles.get_mut(&h) {
            Some(H::S(s)) => ("next", poll_it::<D, _>(&mut cx, q.first() == Some(&Resp::P), |cx| s.as_mut().poll_next(cx))),
            #[cfg(feature = "web")]
            Some(H::B(r)) => ("bnext", crate::web::poll_body(r, &mut cx)),
            _ => panic!("HARNESS: no stream {h}"),
        };
        if let Some(w) = self.world.borrow_mut().waker.take() {
            w.wake();
        }
        let mut out = Vec::new();
        let mut err = Value::Null;
        let res = match res {
            Poll::Pending => "pend",
            Poll::Ready(None) => "end",
            Poll::Ready(Some(Ok(b))) => {
                out.extend_from_slice(&b);
                "ok"
            }
            Poll::Ready(Some(Err(e))) => {
                err = self.err_json(&e);
                "err"
            }
        };
        let mut v = json!({"op": op, "cap": 1 << 24, "res": res, "n": out.len(), "hex": hex(&out), "woke": flag.0.load(Ordering::SeqCst)});
        if !err.is_null() {
            v["err"] = err;
        }
        self.finish(v, h)
    }

    /// Executes one operation, returns false if it does not apply.
    fn exec(&mut self, op: &Op, ops: &mut Vec<Value>) {
        match op {
            Op::Read { h, cap, q } => {
                if let Some(H::R(_)) = self.handles.get(h) {
                    let v = self.poll_read(*h, *cap, q);
                    ops.push(v);
                }
            }
            Op::Next { h, q } => {
                if self.streamlike(*h) {
                    let v = self.poll_next(*h, q);
                    ops.push(v);
                }
            }
            Op::Drain { h, caps, qs } => {
                let (mut errs, mut pends) = (0, 0);
                let (mut total, mut idle) = (0, 0);
                for i in 0..20_000 {
                    let q = qs.get(i).map_or(&[][..], |q| q.as_slice());
                    let v = match self.handles.get(h) {
                        Some(H::R(_)) => self.poll_read(*h, caps[i % caps.len()], q),
                        _ if self.streamlike(*h) => self.poll_next(*h, q),
                        _ => return,
                    };
                    let (res, n) = (v["res"].as_str().unwrap().to_string(), v["n"].as_u64().unwrap());
                    ops.push(v);
                    if (res == "ok" && n == 0 && caps[i % caps.len()] > 0) || res == "end" || res == "corrupt" {
                        return;
                    }
                    // Reading on would only make a trace longer that is not permitted anyway
                    total += n;
                    idle += usize::from(res == "err" || res == "pend");
                    if total > self.limit || idle > qs.len() + 2_000 {
                        return;
                    }
                    errs = if res == "err" { errs + 1 } else { 0 };
                    pends = if res == "pend" { pends + 1 } else { 0 };
                    let scripted = i < qs.len() || !self.world.borrow().script.is_empty();
                    // Waiting for nobody: the specification rejects the first one of these
                    if !scripted && (errs >= 3 || pends >= 3) {
                        return;
                    }
                }
            }
            Op::Seek { h, to, via } => {
                if !self.plain(*h) {
                    return;
                }
                self.begin(&[]);
                let tell = self.tell(*h);
                let mut res = "ok";
                match self.handles.get_mut(h).unwrap() {
                    H::R(r) => {
                        let size = r.size();
                        let from = match via.as_str() {
                            "mut" => {
                                // Moves the reader, which is fine: it is Unpin for these sources
                                Pin::into_inner(r.as_mut()).seek_from_start_mut_any(*to);
                                None
                            }
                            "pin" => {
                                r.as_mut().seek_from_start_pinned(*to);
                                None
                            }
                            "cur" => Some(SeekFrom::Current((*to as i64).wrapping_sub(tell as i64))),
                            "end" => Some(SeekFrom::End((*to as i64).wrapping_sub(size as i64))),
                            _ => Some(SeekFrom::Start(*to)),
                        };
                        if let Some(from) = from {
                            let mut cx = Context::from_waker(Waker::noop());
                            if r.as_mut().start_seek(from).is_err() {
                                res = "err";
                            } else {
                                match r.as_mut().poll_complete(&mut cx) {
                                    Poll::Ready(Ok(p)) if p == *to => {}
                                    Poll::Ready(Ok(_)) => res = "wrong",
                                    Poll::Ready(Err(_)) => res = "err",
                                    Poll::Pending => res = "pend",
                                }
                            }
                        }
                    }
                    H::S(s) => {
                        s.as_mut().reader_pin_mut().seek_from_start_pinned(*to);
                    }
                    #[cfg(feature = "web")]
                    _ => return,
                }
                let v = self.finish(json!({"op": "seek", "to": small(*to), "tol": limbs(*to), "res": res}), *h);
                ops.push(v);
            }
            Op::Raw { h, org, off } => {
                let off: i128 = off.parse().unwrap();
                let Some(H::R(_)) = self.handles.get(h) else { return };
                let before = self.tell(*h);
                let Some(H::R(r)) = self.handles.get_mut(h) else { return };
                let size = r.size();
                let (from, base) = match org.as_str() {
                    "start" => (SeekFrom::Start(off as u64), 0i128),
                    "cur" => (SeekFrom::Current(off as i64), before as i128),
                    _ => (SeekFrom::End(off as i64), size as i128),
                };
                if base + off > u64::MAX as i128 {
                    return; // not covered by the property
                }
                // A witness of what would be read if this seek did not happen
                let mut witness = Box::pin(Reader::clone(r));
                self.begin(&[]);
                let Some(H::R(r)) = self.handles.get_mut(h) else { return };
                let mut cx = Context::from_waker(Waker::noop());
                let (res, kind, pos) = match r.as_mut().start_seek(from) {
                    Err(e) => ("err", format!("{:?}", e.kind()), 0),
                    Ok(()) => match r.as_mut().poll_complete(&mut cx) {
                        Poll::Ready(Ok(p)) => ("ok", String::new(), p),
                        Poll::Ready(Err(e)) => ("err2", format!("{:?}", e.kind()), 0),
                        Poll::Pending => ("pend", String::new(), 0),
                    },
                };
                let mut v = self.finish(
                    json!({"op": "raw", "org": org, "neg": off < 0, "mag": limbs(off.unsigned_abs() as u64),
                        "res": res, "kind": kind, "pos": limbs(pos)}),
                    *h,
                );
                if res == "err" {
                    // Read on, and compare with the witness
                    let Some(H::R(r)) = self.handles.get_mut(h) else { return };
                    let mut both = [Vec::new(), Vec::new()];
                    for (i, x) in [r.as_mut(), witness.as_mut()].into_iter().enumerate() {
                        let mut x = x;
                        for _ in 0..4 {
                            let mut b = [0u8; 7];
                            let mut rb = ReadBuf::new(&mut b);
                            let mut cx = Context::from_waker(Waker::noop());
                            match x.as_mut().poll_read(&mut cx, &mut rb) {
                                Poll::Ready(Ok(())) => both[i].extend_from_slice(rb.filled()),
                                Poll::Ready(Err(_)) => both[i].push(0xEE),
                                Poll::Pending => both[i].push(0xDD),
                            }
                        }
                    }
                    // Equal up to the shorter one is what counts: the pieces may be cut differently
                    let n = both[0].len().min(both[1].len());
                    v["w1"] = json!(hex(&both[0][..n]));
                    v["w2"] = json!(hex(&both[1][..n]));
                    v["wl"] = json!([both[0].len().min(1), both[1].len().min(1)]);
                    let Some(H::R(r)) = self.handles.get_mut(h) else { return };
                    r.as_mut().seek_from_start_pinned(before);
                    self.world.borrow_mut().log.clear();
                } else {
                    v["w1"] = json!("");
                    v["w2"] = json!("");
                    v["wl"] = json!([0, 0]);
                }
                drop(witness);
                self.world.borrow_mut().log.clear();
                ops.push(v);
            }
            Op::Clone { h, nh } => {
                if !self.plain(*h) || self.handles.contains_key(nh) {
                    return;
                }
                self.begin(&[]);
                let new = match &self.handles[h] {
                    H::R(r) => H::R(Box::pin(Reader::clone(r))),
                    H::S(s) => H::S(Box::pin(BytesStream::clone(s))),
                    #[cfg(feature = "web")]
                    _ => return,
                };
                self.handles.insert(*nh, new);
                let v = self.finish(json!({"op": "clone", "nh": nh, "nl": limbs(self.tell(*nh))}), *h);
                ops.push(v);
            }
            Op::Take { h, nh } => {
                if !self.plain(*h) || self.handles.contains_key(nh) {
                    return;
                }
                self.begin(&[]);
                let new = match self.handles.get_mut(h).unwrap() {
                    H::R(r) => r.as_mut().take_pinned(),
                    H::S(s) => s.as_mut().reader_pin_mut().take_pinned(),
                    #[cfg(feature = "web")]
                    _ => return,
                };
                self.handles.insert(*nh, H::R(Box::pin(new)));
                let v = self.finish(json!({"op": "take", "nh": nh, "nl": limbs(self.tell(*nh))}), *h);
                ops.push(v);
            }
            Op::Stream { h } => {
                if !matches!(self.handles.get(h), Some(H::R(_))) {
                    return;
                }
                self.begin(&[]);
                let Some(H::R(r)) = self.handles.remove(h) else { return };
                let s = (*Pin::into_inner(r)).into_bytes_stream();
                self.handles.insert(*h, H::S(Box::pin(s)));
                let v = self.finish(json!({"op": "stream"}), *h);
                ops.push(v);
            }
            Op::Unstream { h } => {
                if !matches!(self.handles.get(h), Some(H::S(_))) {
                    return;
                }
                self.begin(&[]);
                let Some(H::S(s)) = self.handles.remove(h) else { return };
                let r = (*Pin::into_inner(s)).into_reader();
                self.handles.insert(*h, H::R(Box::pin(r)));
                let v = self.finish(json!({"op": "unstream"}), *h);
                ops.push(v);
            }
            Op::Drop { h } => {
                if !self.handles.contains_key(h) {
                    return;
                }
                self.begin(&[]);
                self.handles.remove(h);
                let v = self.finish(json!({"op": "drop"}), *h);
                ops.push(v);
            }
            Op::Crcs { h } => {
                if !self.plain(*h) {
                    return;
                }
                self.begin(&[]);
                let list: Vec<Value> = match &self.handles[h] {
                    H::R(r) => crcs(&self.names, r),
                    H::S(s) => crcs(&self.names, s.reader_ref()),
                    #[cfg(feature = "web")]
                    _ => return,
                };
                let v = self.finish(json!({"op": "crcs", "list": list}), *h);
                ops.push(v);
            }
            Op::Size { h } => {
                if !self.plain(*h) {
                    return;
                }
                self.begin(&[]);
                let size = match &self.handles[h] {
                    H::R(r) => r.size(),
                    H::S(s) => s.reader_ref().size(),
                    #[cfg(feature = "web")]
                    _ => return,
                };
                let v = self.finish(json!({"op": "size", "size": small(size)}), *h);
                ops.push(v);
            }
            #[cfg(not(feature = "web"))]
            Op::Adapt { .. } | Op::Respond { .. } | Op::Recv { .. } | Op::Hangup { .. } => panic!("HARNESS: built without web"),
            #[cfg(feature = "web")]
            Op::Adapt { h, chan } => {
                if !self.plain(*h) {
                    return;
                }
                self.begin(&[]);
                let r = match self.handles.remove(h) {
                    Some(H::R(r)) => *Pin::into_inner(r),
                    Some(H::S(s)) => (*Pin::into_inner(s)).into_reader(),
                    _ => return,
                };
                let a = if *chan {
                    let (a, rx) = r.into_responder_with_channel();
                    self.channels.insert(*h, rx);
                    a
                } else {
                    r.into_responder()
                };
                self.handles.insert(*h, H::A(a));
                let v = self.finish(json!({"op": "adapt", "chan": chan}), *h);
                ops.push(v);
            }
            #[cfg(feature = "web")]
            Op::Respond { h, hdr } => {
                if !matches!(self.handles.get(h), Some(H::A(_))) {
                    return;
                }
                self.begin(&[]);
                let Some(H::A(a)) = self.handles.remove(h) else { return };
                let (r, v) = crate::web::respond(a, hdr.as_deref());
                self.handles.insert(*h, H::B(r));
                let v = self.finish(v, *h);
                ops.push(v);
            }
            #[cfg(feature = "web")]
            Op::Recv { h, nh } => {
                let Some(rx) = self.channels.get_mut(h) else { return };
                if self.handles.contains_key(nh) {
                    return;
                }
                let got = rx.try_recv();
                self.begin(&[]);
                let res = match got {
                    Ok(r) => {
                        self.handles.insert(*nh, H::R(Box::pin(r)));
                        "reader"
                    }
                    Err(tokio::sync::oneshot::error::TryRecvError::Empty) => "empty",
                    Err(tokio::sync::oneshot::error::TryRecvError::Closed) => "closed",
                };
                let pos = if res == "reader" { self.shown(*nh) } else { -3 };
                let v = self.finish(json!({"op": "recv", "nh": nh, "res": res, "pos": pos}), *h);
                ops.push(v);
            }
            #[cfg(feature = "web")]
            Op::Hangup { h } => {
                self.begin(&[]);
                if self.channels.remove(h).is_none() {
                    return;
                }
                let v = self.finish(json!({"op": "hangup"}), *h);
                ops.push(v);
            }
        }
    }
}

fn crcs<D: EntryData>(names: &BTreeMap<String, usize>, r: &Reader<D>) -> Vec<Value> {
    r.crc32s().map(|(n, c)| json!([names.get(n).copied().unwrap_or(0), c >> 16, c & 0xffff])).collect()
}

/// `seek_from_start_mut` needs `&mut Reader`.
trait SeekMut {
    fn seek_from_start_mut_any(self, to: u64);
}
impl<D: EntryData> SeekMut for &mut Reader<D> {
    fn seek_from_start_mut_any(self, to: u64) {
        self.seek_from_start_mut(to);
    }
}

fn run_typed<D: Make>(spec: &ArchSpec, arch: usize, sc: &Scenario) -> Value {
    let world: World = Rc::new(RefCell::new(WorldState::default()));
    let names = spec.entries.iter().enumerate().map(|(i, e)| (e.name.clone(), i + 1)).collect();
    let mut ops: Vec<Value> = Vec::new();
    let limit = spec.entries.iter().fold(66_000u64, |n, e| n.saturating_add(e.size.max(e.actual)).saturating_add(200 + 2 * e.name.len() as u64));
    let mut run: Run<D> = Run { handles: BTreeMap::new(), names, world, wide: sc.wide, channels: BTreeMap::new(), limit };
    let r = catch_unwind(AssertUnwindSafe(|| {
        run.begin(&[]);
        let b = builder::<D>(spec, &run.world, false);
        let bsize = b.size();
        let r = b.build();
        let rsize = r.size();
        run.handles.insert(1, H::R(Box::pin(r)));
        run.finish(json!({"op": "build", "bsize": small(bsize), "size": small(rsize), "sizel": limbs(rsize)}), 1)
    }));
    run.world.borrow_mut().script = sc.script.iter().copied().collect();
    // Other kinds of failures in other scenarios
    run.world.borrow_mut().err_counter = sc.id.bytes().fold(0, |s, b| (s * 31 + u32::from(b)) % 1000);
    let mut dead = None;
    match r {
        Ok(v) => ops.push(v),
        Err(p) => dead = Some(("build".to_string(), panic_text(&*p))),
    }
    if dead.is_none() {
        for op in &sc.ops {
            crate::heartbeat();
            let r = catch_unwind(AssertUnwindSafe(|| run.exec(op, &mut ops)));
            if let Err(p) = r {
                dead = Some((format!("{op:?}").chars().take(60).collect(), panic_text(&*p)));
                break;
            }
        }
    }
    if let Some((what, msg)) = dead {
        if msg.starts_with("HARNESS") {
            eprintln!("{msg} in {}", sc.id);
            std::process::exit(98);
        }
        ops.push(json!({"op": "panic", "h": 1, "what": what, "msg": msg, "src": [], "all": [], "tell": -2}));
        // The state of the handles is unknown
        std::mem::forget(run);
    } else {
        if let Err(p) = catch_unwind(AssertUnwindSafe(move || drop(run))) {
            ops.push(json!({"op": "panic", "h": 1, "what": "drop", "msg": panic_text(&*p), "src": [], "all": [], "tell": -2}));
        }
    }
    json!({"id": sc.id, "a": arch, "ops": ops})
}

pub fn run(out: &mut Out, spec: &ArchSpec, arch: usize, sc: &Scenario) {
    let desc = json!({"arch": spec, "scenario": sc}).to_string();
    crate::set_current(&desc);
    let t = match spec.kind.as_str() {
        "vec" => run_typed::<Vec<u8>>(spec, arch, sc),
        "fs" => {
            FILES.with(|f| *f.borrow_mut() = Some(FileDir(scratch("entries"))));
            let t = run_typed::<zippity::FilesystemEntry>(spec, arch, sc);
            FILES.with(|f| *f.borrow_mut() = None);
            t
        }
        _ => run_typed::<Scripted>(spec, arch, sc),
    };
    if !sc.pred.is_empty() {
        let got: Vec<(String, i64)> = t["ops"]
            .as_array()
            .unwrap()
            .iter()
            .filter(|o| o["op"] == "read" || o["op"] == "next")
            .map(|o| (o["res"].as_str().unwrap().to_string(), o["n"].as_i64().unwrap()))
            .collect();
        out.add("model reads replayed", got.len() as u64);
        out.add("model reads exactly as predicted", got.iter().zip(&sc.pred).filter(|(a, b)| a == b).count() as u64);
    }
    out.spec(&sc.id, &desc);
    out.trace(&t);
}

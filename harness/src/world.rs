//! Scripted data sources: every call a reader makes to them is logged, and answered from a script.
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::io::{self, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};
use zippity::EntryData;

/// One scripted answer. Consumed by open polls, read polls and seek polls
/// (and by the start of a seek if it is `StartErr`).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "lowercase")]
pub enum Resp {
    /// Pending (wakes the caller immediately)
    P,
    /// Fail
    E,
    /// Fail when starting a seek; anything else takes it as `Full`
    X,
    /// Full answer
    F,
    /// Return at most this number of bytes
    S(usize),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub k: &'static str,
    pub s: u32,
    pub e: usize,
    pub r: &'static str,
    pub off: u64,
    pub n: u64,
}

impl Ev {
    pub fn json(&self) -> Value {
        json!({"k": self.k, "s": self.s, "e": self.e, "r": self.r, "off": crate::util::small(self.off), "n": crate::util::small(self.n)})
    }
}

#[derive(Default)]
pub struct WorldState {
    pub queue: VecDeque<Resp>,
    /// Used when `queue` is exhausted, not reset between operations
    pub script: VecDeque<Resp>,
    pub log: Vec<Ev>,
    pub calls: usize,
    next_sid: u32,
    pub err_counter: u32,
    /// Identity of the last failure
    pub last_err: Option<(io::ErrorKind, String)>,
    pub waker: Option<Waker>,
    /// Whether any source made the caller wait in this call
    pub pended: bool,
}

pub type World = Rc<RefCell<WorldState>>;

impl WorldState {
    fn tick(&mut self) {
        self.calls += 1;
        if self.calls > 200_000 {
            panic!("LIVELOCK: more than 200000 source calls in a single operation");
        }
    }
    fn fail(&mut self) -> io::Error {
        self.err_counter += 1;
        let m = format!("scripted failure {}", self.err_counter);
        // Whatever the kind of a failure is, it is passed on as it is
        use io::ErrorKind::*;
        let kinds = [
            ConnectionReset, UnexpectedEof, Interrupted, NotFound, InvalidInput, Other, TimedOut, PermissionDenied, BrokenPipe, InvalidData, WouldBlock,
            WriteZero, OutOfMemory, Unsupported, AlreadyExists, ConnectionRefused, ConnectionAborted, NotConnected, AddrInUse, HostUnreachable, NotSeekable,
            StorageFull, StaleNetworkFileHandle, IsADirectory, FileTooLarge, ResourceBusy, Deadlock,
        ];
        let kind = kinds[self.err_counter as usize % kinds.len()];
        self.last_err = Some((kind, m.clone()));
        io::Error::new(kind, m)
    }
    fn pend(&mut self, cx: &mut Context<'_>) {
        self.waker = Some(cx.waker().clone());
        self.pended = true;
    }
    fn next_resp(&mut self) -> Resp {
        self.queue.pop_front().or_else(|| self.script.pop_front()).unwrap_or(Resp::F)
    }
}

#[derive(Clone, Debug)]
pub enum Content {
    Bytes(Arc<[u8]>),
    /// Generated content of given length
    Pattern(u64, u64),
    /// The same, as spec/ZipWide.tla has it
    Wide(u64, u64),
}

impl Content {
    pub fn len(&self) -> u64 {
        match self {
            Content::Bytes(b) => b.len() as u64,
            Content::Pattern(_, l) | Content::Wide(_, l) => *l,
        }
    }
    pub fn copy(&self, off: u64, out: &mut [u8]) {
        match self {
            Content::Bytes(b) => out.copy_from_slice(&b[off as usize..off as usize + out.len()]),
            Content::Pattern(seed, _) => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = pattern(*seed, off + i as u64);
                }
            }
            Content::Wide(seed, _) => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = data_byte(*seed, off + i as u64);
                }
            }
        }
    }
}

/// Depends on every byte of the offset. DataByte of spec/ZipWide.tla
pub fn data_byte(seed: u64, i: u64) -> u8 {
    let factors = [167u64, 91, 59, 13, 101, 37, 83, 29];
    let sum: u64 = i.to_le_bytes().iter().zip(factors).map(|(b, f)| u64::from(*b) * f).sum();
    ((sum + seed % 256 * 53) % 256) as u8
}

/// Content with no short period, so that bytes from a wrong place are noticed.
pub fn pattern(seed: u64, i: u64) -> u8 {
    let x = (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(seed.wrapping_mul(0xD1B5_4A32_D192_ED03));
    ((x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 56) as u8
}

/// The content of an entry of the given length. Some contents have the extreme checksums,
/// 0 and 0xFFFFFFFF, which must not be taken for anything special.
pub fn content(seed: u64, len: u64) -> Vec<u8> {
    let mut x = plain(seed, len);
    let target = match seed % 8 {
        3 if len <= 70_000 => !0,
        5 if len <= 70_000 => 0,
        _ => return x,
    };
    if let Some(at) = x.len().checked_sub(4) {
        // Four bytes take the remainder anywhere: go back from there to what they have to be
        let mut back: u32 = target;
        for _ in 0..32 {
            back = if back >> 31 == 1 { ((back ^ 0xEDB8_8320) << 1) | 1 } else { back << 1 };
        }
        let before = !crate::util::crc32(&x[..at]);
        x[at..].copy_from_slice(&(before ^ back).to_le_bytes());
        assert_eq!(crate::util::crc32(&x), !target);
    }
    x
}

pub fn plain(seed: u64, len: u64) -> Vec<u8> {
    (0..len).map(|i| pattern(seed, i)).collect()
}

#[derive(Clone)]
pub struct Scripted {
    pub e: usize,
    pub declared: u64,
    pub content: Content,
    pub world: World,
}

impl std::fmt::Debug for Scripted {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Scripted({})", self.e)
    }
}

/// Sources are counted as open from `get_reader()` until everything that came out of it is dropped.
struct Token {
    sid: u32,
    e: usize,
    world: World,
}

impl Drop for Token {
    fn drop(&mut self) {
        if let Ok(mut w) = self.world.try_borrow_mut() {
            w.log.push(Ev { k: "drop", s: self.sid, e: self.e, r: "ok", off: 0, n: 0 });
        }
    }
}

pub struct OpenFuture {
    token: Option<Token>,
    content: Content,
}

pub struct SrcReader {
    token: Token,
    content: Content,
    pos: u64,
    seek_to: Option<u64>,
}

impl EntryData for Scripted {
    type Reader = SrcReader;
    type Future = OpenFuture;

    fn get_reader(&self) -> OpenFuture {
        let mut w = self.world.borrow_mut();
        w.tick();
        w.next_sid += 1;
        let sid = w.next_sid;
        w.log.push(Ev { k: "get", s: sid, e: self.e, r: "ok", off: 0, n: 0 });
        OpenFuture {
            token: Some(Token { sid, e: self.e, world: self.world.clone() }),
            content: self.content.clone(),
        }
    }

    fn size(&self) -> u64 {
        self.declared
    }
}

impl Future for OpenFuture {
    type Output = io::Result<SrcReader>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let Some(token) = self.token.take() else {
            panic!("SOURCE MISUSE: open future polled after completion");
        };
        let world = token.world.clone();
        let mut w = world.borrow_mut();
        w.tick();
        let (s, e) = (token.sid, token.e);
        match w.next_resp() {
            Resp::P => {
                w.log.push(Ev { k: "open", s, e, r: "p", off: 0, n: 0 });
                w.pend(cx);
                self.token = Some(token);
                Poll::Pending
            }
            Resp::E => {
                w.log.push(Ev { k: "open", s, e, r: "e", off: 0, n: 0 });
                let err = w.fail();
                drop(w);
                drop(token);
                Poll::Ready(Err(err))
            }
            _ => {
                w.log.push(Ev { k: "open", s, e, r: "ok", off: 0, n: 0 });
                Poll::Ready(Ok(SrcReader { token, content: self.content.clone(), pos: 0, seek_to: None }))
            }
        }
    }
}

impl AsyncRead for SrcReader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let this = self.get_mut();
        let mut w = this.token.world.borrow_mut();
        w.tick();
        let (s, e) = (this.token.sid, this.token.e);
        if this.seek_to.is_some() {
            panic!("SOURCE MISUSE: read while a seek is in progress");
        }
        let limit = match w.next_resp() {
            Resp::P => {
                w.log.push(Ev { k: "read", s, e, r: "p", off: this.pos, n: 0 });
                w.pend(cx);
                return Poll::Pending;
            }
            Resp::E => {
                w.log.push(Ev { k: "read", s, e, r: "e", off: this.pos, n: 0 });
                return Poll::Ready(Err(w.fail()));
            }
            Resp::S(n) => n.max(1),
            Resp::F | Resp::X => usize::MAX,
        };
        let left = this.content.len().saturating_sub(this.pos);
        let n = (buf.remaining().min(limit) as u64).min(left) as usize;
        this.content.copy(this.pos.min(this.content.len()), buf.initialize_unfilled_to(n));
        buf.advance(n);
        w.log.push(Ev { k: "read", s, e, r: "ok", off: this.pos, n: n as u64 });
        this.pos += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for SrcReader {
    fn start_seek(self: Pin<&mut Self>, position: SeekFrom) -> io::Result<()> {
        let this = self.get_mut();
        let mut w = this.token.world.borrow_mut();
        w.tick();
        let (s, e) = (this.token.sid, this.token.e);
        if this.seek_to.is_some() {
            panic!("SOURCE MISUSE: seek started while another is in progress");
        }
        let target = match position {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::Current(o) => this.pos.checked_add_signed(o),
            SeekFrom::End(o) => this.content.len().checked_add_signed(o),
        };
        let Some(target) = target else {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "bad seek"));
        };
        let front = w.queue.front().or(w.script.front()).copied();
        if front == Some(Resp::X) {
            w.next_resp();
            w.log.push(Ev { k: "sseek", s, e, r: "e", off: target, n: 0 });
            return Err(w.fail());
        }
        w.log.push(Ev { k: "sseek", s, e, r: "ok", off: target, n: 0 });
        this.seek_to = Some(target);
        Ok(())
    }

    fn poll_complete(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        let this = self.get_mut();
        let mut w = this.token.world.borrow_mut();
        w.tick();
        let (s, e) = (this.token.sid, this.token.e);
        let Some(target) = this.seek_to else {
            return Poll::Ready(Ok(this.pos));
        };
        match w.next_resp() {
            Resp::P => {
                w.log.push(Ev { k: "pseek", s, e, r: "p", off: target, n: 0 });
                w.pend(cx);
                Poll::Pending
            }
            Resp::E => {
                w.log.push(Ev { k: "pseek", s, e, r: "e", off: target, n: 0 });
                this.seek_to = None;
                // The position after a failed seek is anybody's guess
                this.pos = target / 2;
                Poll::Ready(Err(w.fail()))
            }
            _ => {
                w.log.push(Ev { k: "pseek", s, e, r: "ok", off: target, n: 0 });
                this.seek_to = None;
                this.pos = target;
                Poll::Ready(Ok(target))
            }
        }
    }
}

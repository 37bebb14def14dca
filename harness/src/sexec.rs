//! Drives data sources that come with the library: reads and seeks, without an archive around them.
use crate::rexec::panic_text;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::future::poll_fn;
use std::io::SeekFrom;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::sync::Arc;
use tokio::io::ReadBuf;
use zippity::{EntryData, EntryReader};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "op", rename_all = "lowercase")]
pub enum Op {
    Open { h: usize },
    Read { h: usize, cap: usize },
    /// Offsets by sign and magnitude
    Seek { h: usize, org: String, neg: bool, mag: [u64; 4] },
    Close { h: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    #[serde(default)]
    pub id: String,
    #[serde(default)]
    pub source: String,
    /// Hexadecimal
    pub data: String,
    #[serde(rename = "ops")]
    pub sops: Vec<Op>,
}

pub const SOURCES: &[&str] = &["vec", "slice", "string", "box", "arc", "bytes", "array", "file", "link"];

fn value(m: &[u64; 4]) -> u64 {
    m[0] | m[1] << 16 | m[2] << 32 | m[3] << 48
}

fn run_on<D: EntryData>(d: &D, sc: &Scenario, rt: &tokio::runtime::Runtime, bounded: bool) -> Vec<Value>
where
    D::Reader: Sized,
{
    let mut readers: BTreeMap<usize, Pin<Box<D::Reader>>> = BTreeMap::new();
    let mut at: BTreeMap<usize, i128> = BTreeMap::new();
    let len = (sc.data.len() / 2) as i128;
    let mut out = Vec::new();
    for op in &sc.sops {
        crate::heartbeat();
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            Op::Open { h } => {
                let res = rt.block_on(d.get_reader());
                let v = json!({"op": "open", "h": h, "res": if res.is_ok() { "ok" } else { "err" }, "size": limbs(d.size())});
                if let Ok(r) = res {
                    readers.insert(*h, Box::pin(r));
                    at.insert(*h, 0);
                }
                Some(v)
            }
            Op::Read { h, cap } => {
                let r = readers.get_mut(h)?;
                // What is in the buffer already stays there
                const BEFORE: [u8; 3] = [0xA5, 0x5A, 0xC3];
                let before = &BEFORE[..(*h + *cap) % 4];
                let mut buf = vec![0u8; before.len() + *cap];
                let mut rb = ReadBuf::new(&mut buf);
                rb.put_slice(before);
                let res = rt.block_on(poll_fn(|cx| r.as_mut().poll_read(d, cx, &mut rb)));
                let kept = rb.filled().starts_with(before);
                let x = rb.filled().get(before.len()..).unwrap_or(&[]);
                *at.get_mut(h)? += x.len() as i128;
                Some(json!({"op": "read", "h": h, "cap": cap, "res": if !kept { "corrupt" } else if res.is_ok() { "ok" } else { "err" }, "n": x.len(), "hex": hex(x)}))
            }
            Op::Seek { h, org, neg, mag } => {
                let r = readers.get_mut(h)?;
                let m = value(mag);
                let off = if *neg { -i128::from(m) } else { i128::from(m) };
                let to = match org.as_str() {
                    "start" => off,
                    "cur" => at[h] + off,
                    _ => len + off,
                };
                let fits = i64::try_from(off);
                let from = match org.as_str() {
                    "start" => SeekFrom::Start(m),
                    "cur" => SeekFrom::Current(fits.ok()?),
                    _ => SeekFrom::End(fits.ok()?),
                };
                // What the operating system does with positions that are not in files is not ours
                if bounded && !(0..1 << 40).contains(&to) {
                    return None;
                }
                let guard = rt.enter();
                let started = r.as_mut().start_seek(d, from);
                drop(guard);
                let res = match started {
                    Ok(()) => rt.block_on(poll_fn(|cx| r.as_mut().poll_seek_complete(d, cx))),
                    Err(e) => Err(e),
                };
                if res.is_ok() {
                    at.insert(*h, to);
                }
                Some(json!({"op": "seek", "h": h, "org": org, "neg": neg, "mag": mag,
                    "res": if res.is_ok() { "ok" } else { "err" }, "pos": limbs(*res.as_ref().unwrap_or(&0)),
                    "kind": res.as_ref().err().map_or(String::new(), |e| format!("{:?}", e.kind()))}))
            }
            Op::Close { h } => {
                readers.remove(h)?;
                Some(json!({"op": "close", "h": h}))
            }
        }));
        match r {
            Ok(Some(v)) => out.push(v),
            Ok(None) => {}
            Err(p) => {
                out.push(json!({"op": "panic", "txt": panic_text(&*p)}));
                break;
            }
        }
    }
    out
}

/// Can the source hold such data?
pub fn holds(source: &str, data: &[u8]) -> bool {
    match source {
        "string" => std::str::from_utf8(data).is_ok(),
        "array" => data.len() == 3,
        "link" => !data.is_empty() && data.len() < 3000 && !data.contains(&0),
        _ => true,
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().max_blocking_threads(2).build().unwrap();
}

pub fn run(out: &mut Out, sc: &Scenario) {
    RT.with(|rt| run_with(out, sc, rt));
}

fn run_with(out: &mut Out, sc: &Scenario, rt: &tokio::runtime::Runtime) {
    let data = unhex(&sc.data);
    let desc = serde_json::to_value(sc).unwrap();
    let mut input = desc;
    input["source"] = json!(sc.source);
    crate::set_current(&input.to_string());
    out.spec(&sc.id, &input.to_string());
    let ops = match sc.source.as_str() {
        "vec" => run_on(&data.clone(), sc, rt, false),
        "slice" => run_on(&data.as_slice(), sc, rt, false),
        "string" => run_on(&String::from_utf8(data).expect("HARNESS: text"), sc, rt, false),
        "box" => run_on(&data.into_boxed_slice(), sc, rt, false),
        "arc" => run_on(&Arc::<[u8]>::from(data), sc, rt, false),
        "bytes" => run_on(&bytes::Bytes::from(data), sc, rt, false),
        "array" => run_on(&<[u8; 3]>::try_from(data.as_slice()).expect("HARNESS: three bytes"), sc, rt, false),
        "file" | "link" => {
            let dir = scratch("source");
            let path = dir.join("x");
            if sc.source == "file" {
                std::fs::write(&path, &data).unwrap();
            } else {
                use std::os::unix::ffi::OsStrExt;
                std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(&data), &path).unwrap();
            }
            let md = std::fs::symlink_metadata(&path).unwrap();
            let e = catch_unwind(AssertUnwindSafe(|| rt.block_on(zippity::FilesystemEntry::with_metadata(path, &md))));
            let ops = match e {
                Ok(Ok(e)) => run_on(&e, sc, rt, sc.source == "file"),
                _ => vec![json!({"op": "not captured"})],
            };
            let _ = std::fs::remove_dir_all(&dir);
            ops
        }
        x => panic!("HARNESS: {x}"),
    };
    out.count(&format!("source {}", sc.source));
    out.trace(&json!({"id": sc.id, "data": sc.data, "ops": ops}));
}

fn limbs_of(v: u64) -> [u64; 4] {
    [v & 0xffff, v >> 16 & 0xffff, v >> 32 & 0xffff, v >> 48]
}

/// Behaviours of the model (if any), in every kind of source, and random histories
pub fn generate(out: &mut Out, seed: u64, thorough: bool, behaviours: Option<&str>) {
    let mut id = 0;
    let mut go = |out: &mut Out, sc: Scenario| {
        id += 1;
        run(out, &Scenario { id: format!("C19-{id}"), ..sc });
    };
    if let Some(b) = behaviours {
        for (i, line) in std::fs::read_to_string(b).expect("behaviours").lines().enumerate() {
            let sc: Scenario = serde_json::from_str(line).expect("behaviour");
            let data = unhex(&sc.data);
            // Those in memory in turn; a source of each other kind as well
            let mut kinds = vec![SOURCES[i % 7]];
            if i % 4 == 0 || thorough {
                kinds.push("file");
            }
            if i % 2 == 0 || thorough {
                kinds.push("link");
            }
            for k in kinds {
                if holds(k, &data) {
                    go(out, Scenario { source: k.into(), ..sc.clone() });
                }
            }
        }
    }
    let mut r = Rng::new(seed ^ 0x19);
    for i in 0..if thorough { 6000 } else { 600 } {
        let source = SOURCES[i % SOURCES.len()];
        let n = match r.below(8) {
            0 => 0,
            1 => 3,
            2 => r.range(1000, if source == "link" { 2900 } else { 20_000 }),
            _ => r.range(1, 60),
        };
        let n = if source == "array" { 3 } else { n };
        let data: Vec<u8> = (0..n).map(|_| if source == "string" || source == "link" { b'a' + r.below(26) as u8 } else { r.below(256) as u8 }).collect();
        if !holds(source, &data) {
            continue;
        }
        let mut ops = vec![Op::Open { h: 1 }];
        let mut open = 1;
        for _ in 0..r.range(3, 25) {
            let h = r.range(1, open) as usize;
            ops.push(match r.below(12) {
                0 if open < 3 => {
                    open += 1;
                    Op::Open { h: open as usize }
                }
                0..=4 => Op::Read { h, cap: *r.pick(&[0, 1, 2, 3, 7, 20, 100, 8192, 9000]) },
                _ => {
                    let org = *r.pick(&["start", "cur", "end"]);
                    let big = r.chance(1, 6);
                    let mag = if big {
                        *r.pick(&[1u64 << 63, (1 << 63) - 1, (1 << 63) - n, 1 << 62, 1 << 32, u64::MAX, u64::MAX - n, (1 << 32) - 1])
                    } else {
                        r.below(n + 3)
                    };
                    let neg = org != "start" && r.chance(1, 2);
                    let mag = if org == "start" { mag } else { mag.min((1 << 63) - u64::from(!neg)) };
                    Op::Seek { h, org: org.into(), neg: neg && mag > 0, mag: limbs_of(mag) }
                }
            });
        }
        go(out, Scenario { id: String::new(), source: source.into(), data: hex(&data), sops: ops });
    }
}

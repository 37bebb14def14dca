//! Small helpers: deterministic random numbers, hex, 64-bit values as limbs, CRC, trace output.
use serde_json::{Value, json};
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::path::{Path, PathBuf};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

/// Four 16-bit limbs, least significant first.
pub fn limbs(v: u64) -> Value {
    json!([v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48])
}

/// [high, low] 16-bit halves.
pub fn pair(v: u32) -> Value {
    json!([v >> 16, v & 0xffff])
}

/// A value that fits TLC's integers, or -1.
pub fn small(v: u64) -> i64 {
    if v < (1 << 31) { v as i64 } else { -1 }
}

/// Straightforward bitwise CRC-32, used only to produce *inputs* (right and wrong given values).
pub fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= u32::from(*b);
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

pub fn err_text(e: &std::io::Error) -> String {
    let mut s = String::new();
    let _ = write!(s, "{e}");
    s.truncate(200);
    s
}

/// Output directory: traces are distributed over shards, archives are shared between traces.
pub struct Out {
    dir: PathBuf,
    archs: BufWriter<File>,
    n_archs: usize,
    specs: BufWriter<File>,
    shards: Vec<BufWriter<File>>,
    weights: Vec<usize>,
    pub n_traces: usize,
    pub n_events: usize,
    pub stats: std::collections::BTreeMap<String, u64>,
    start: std::time::Instant,
    bytes: usize,
    /// Seconds and bytes of traces after which no more are recorded: code that behaves well needs a small part of that
    pub most: (u64, usize),
}

impl Out {
    pub fn new(dir: &Path, shards: usize) -> Self {
        std::fs::create_dir_all(dir).unwrap();
        let archs = BufWriter::new(File::create(dir.join("archs.ndjson")).unwrap());
        let specs = BufWriter::new(File::create(dir.join("specs.ndjson")).unwrap());
        let sh = (0..shards)
            .map(|i| BufWriter::new(File::create(dir.join(format!("traces-{i}.ndjson"))).unwrap()))
            .collect();
        Out {
            dir: dir.to_path_buf(),
            archs,
            n_archs: 0,
            specs,
            shards: sh,
            weights: vec![0; shards],
            n_traces: 0,
            n_events: 0,
            stats: Default::default(),
            start: std::time::Instant::now(),
            bytes: 0,
            most: (240, 400 << 20),
        }
    }
    pub fn dir(&self) -> &Path {
        &self.dir
    }
    /// Returns the (1-based) index of the archive
    pub fn arch(&mut self, v: &Value) -> usize {
        writeln!(self.archs, "{v}").unwrap();
        self.n_archs += 1;
        self.n_archs
    }
    /// Inputs of a trace, for reproducing it
    pub fn spec(&mut self, id: &str, desc: &str) {
        writeln!(self.specs, "{{\"id\":{},\"input\":{desc}}}", json!(id)).unwrap();
    }
    pub fn trace(&mut self, v: &Value) {
        let s = v.to_string();
        let n = v["ops"].as_array().map_or(1, |a| a.len());
        self.put(s, n);
    }
    /// A trace whose validation takes the given number of steps
    pub fn trace_weight(&mut self, v: &Value, n: usize) {
        self.put(v.to_string(), n);
    }
    fn put(&mut self, s: String, n: usize) {
        self.n_traces += 1;
        self.n_events += n;
        let i = (0..self.weights.len()).min_by_key(|i| self.weights[*i]).unwrap();
        self.weights[i] += s.len() + 200 * n;
        writeln!(self.shards[i], "{s}").unwrap();
        self.bytes += s.len();
        if self.start.elapsed().as_secs() > self.most.0 || self.bytes > self.most.1 {
            self.add("cut short", 1);
            self.summary();
            std::process::exit(0);
        }
    }
    pub fn count(&mut self, what: &str) {
        *self.stats.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, what: &str, n: u64) {
        *self.stats.entry(what.to_string()).or_insert(0) += n;
    }
    pub fn flush(&mut self) {
        self.archs.flush().unwrap();
        self.specs.flush().unwrap();
        for s in &mut self.shards {
            s.flush().unwrap();
        }
    }
    pub fn finish(mut self) {
        self.summary();
    }
    fn summary(&mut self) {
        self.flush();
        let v = json!({"traces": self.n_traces, "events": self.n_events, "archs": self.n_archs, "stats": self.stats, "bytes": self.bytes});
        std::fs::write(self.dir.join("summary.json"), v.to_string()).unwrap();
    }
}

/// A new directory for files, under the output directory, which the caller removes.
pub fn scratch(what: &str) -> PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let d = std::env::temp_dir().join(format!("zharness-{}-{what}-{n}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn unhex(x: &str) -> Vec<u8> {
    (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).expect("hexadecimal")).collect()
}

//! Generates reader scenarios: exhaustive over offsets and fault points of small archives, random otherwise.
use crate::rexec::*;
use crate::util::*;
use crate::world::Resp;
use serde_json::Value;
use std::io::BufRead;

const LH: u64 = 58;
const CDH: u64 = 74;
const DD: u64 = 24;
const END: u64 = 98;

pub fn total(spec: &ArchSpec) -> u64 {
    spec.entries.iter().map(|e| LH + DD + CDH + 2 * e.name.len() as u64 + e.size).sum::<u64>() + END
}

/// Interesting offsets of the file
pub fn marks(spec: &ArchSpec) -> Vec<u64> {
    let mut m = Vec::new();
    let mut o = 0;
    for e in &spec.entries {
        let nl = e.name.len() as u64;
        m.extend([o, o + 30, o + 30 + nl, o + LH + nl, o + LH + nl + e.size / 2, o + LH + nl + e.size]);
        m.extend([o + LH + nl + e.size + 4, o + LH + nl + e.size + 8]);
        o += LH + nl + e.size + DD;
    }
    for e in &spec.entries {
        let nl = e.name.len() as u64;
        m.extend([o, o + 16, o + 20, o + 46, o + 46 + nl]);
        o += CDH + nl;
    }
    m.extend([o, o + 56, o + 76, o + END, o + END + 1, o + END + 1000]);
    m
}

pub fn any_offset(r: &mut Rng, spec: &ArchSpec) -> u64 {
    let t = total(spec);
    if r.chance(1, 2) {
        let m = marks(spec);
        let b = *r.pick(&m);
        let d = r.below(5);
        (b + d).saturating_sub(2)
    } else {
        r.below(t + 3)
    }
}

const CAPS: &[usize] = &[1, 2, 3, 5, 7, 13, 17, 28, 29, 30, 31, 46, 56, 58, 98, 100, 150, 1000, 4096, 8191, 8192, 8193, 20000];

pub fn any_cap(r: &mut Rng) -> usize {
    if r.chance(1, 3) { r.range(1, 120) as usize } else { *r.pick(CAPS) }
}

const NAMES: &[&str] = &["a", "b.txt", "dir/", "dir/c", "žluťoučký kůň", "日本", "x y", "emoji-🎉", "long-name-with-many-characters-in-it.bin"];

pub fn any_arch(r: &mut Rng, max_size: u64, crcs: &[&str]) -> ArchSpec {
    let n = match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3..=6 => 2,
        7 | 8 => 3,
        _ => 5,
    };
    let mut entries = Vec::new();
    for i in 0..n {
        let name = match r.below(12) {
            0 => "n".repeat(*r.pick(&[255usize, 256, 300])),
            1 => String::new(),
            _ => r.pick(NAMES).to_string(),
        };
        let name = if entries.iter().any(|e: &EntrySpec| e.name == name) { format!("{name}{i}") } else { name };
        let size = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => r.range(2, 9),
            3..=5 => r.range(1, 60),
            6 => r.range(60, 300.min(max_size)),
            _ => {
                if max_size > 8000 && r.chance(1, 2) {
                    *r.pick(&[8190, 8191, 8192, 8193, 16384, 16385, 20000])
                } else {
                    r.range(1, 150)
                }
            }
        };
        let crc = r.pick(crcs);
        entries.push(EntrySpec::new(&name, size, crc, r.below(1000)));
    }
    ArchSpec { entries, kind: "scripted".into(), giant: false }
}

pub fn fixed(entries: &[(&str, u64, &str)]) -> ArchSpec {
    ArchSpec {
        entries: entries.iter().enumerate().map(|(i, (n, s, c))| EntrySpec::new(n, *s, c, i as u64 + 11)).collect(),
        kind: "scripted".into(),
        giant: false,
    }
}

/// An archive of any size. Large entries need a checksum that is supplied
pub fn wide(entries: &[(u64, &str)]) -> ArchSpec {
    ArchSpec {
        entries: entries.iter().enumerate().map(|(i, (s, c))| EntrySpec::new(&format!("g{i}"), *s, c, 3 * i as u64 + 1)).collect(),
        kind: "scripted".into(),
        giant: true,
    }
}

/// Many entries
fn many(n: u64) -> ArchSpec {
    wide(&(0..n).map(|i| (i * 5 % 13, if i % 3 == 0 { "right" } else { "none" })).collect::<Vec<_>>())
}

pub struct Gen<'a> {
    pub out: &'a mut Out,
    pub r: Rng,
    pub thorough: bool,
    with_data: bool,
    id: usize,
    prefix: String,
    archs: std::collections::HashMap<String, usize>,
}

impl<'a> Gen<'a> {
    pub fn new(out: &'a mut Out, seed: u64, thorough: bool, prefix: &str, with_data: bool) -> Self {
        // Archive number 1 is always the empty one
        let mut g = Gen {
            out,
            r: Rng::new(seed),
            thorough,
            with_data,
            id: 0,
            prefix: prefix.into(),
            archs: Default::default(),
        };
        let empty = fixed(&[]);
        assert_eq!(g.arch(&empty), 1);
        g
    }
    fn arch(&mut self, spec: &ArchSpec) -> usize {
        let key = serde_json::to_string(&(&spec.entries, spec.giant)).unwrap();
        if let Some(i) = self.archs.get(&key) {
            return *i;
        }
        crate::set_current(&key);
        let v = arch_json(spec, self.with_data);
        let i = self.out.arch(&v);
        self.archs.insert(key, i);
        i
    }
    pub fn run(&mut self, spec: &ArchSpec, ops: Vec<Op>) {
        self.run_pred(spec, ops, vec![], false, vec![]);
    }
    pub fn run_script(&mut self, spec: &ArchSpec, ops: Vec<Op>, script: Vec<Resp>) {
        self.run_pred(spec, ops, vec![], false, script);
    }
    pub fn run_pred(&mut self, spec: &ArchSpec, ops: Vec<Op>, pred: Vec<(String, i64)>, wide: bool, script: Vec<Resp>) {
        let a = self.arch(spec);
        self.id += 1;
        let id = format!("{}-{}", self.prefix, self.id);
        crate::rexec::run(self.out, spec, a, &Scenario { id, ops, wide, pred, script });
    }

    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    fn small_archs(&self) -> Vec<ArchSpec> {
        let mut v = vec![
            fixed(&[("a", 5, "none"), ("bb", 0, "none"), ("c", 3, "right")]),
            fixed(&[("žluť", 9, "right"), ("d/", 0, "none"), ("e", 7, "none")]),
            fixed(&[("", 1, "none")]),
        ];
        if self.thorough {
            v.push(fixed(&[("a", 0, "right"), ("b", 0, "none"), ("c", 40, "right"), ("d", 41, "none")]));
            v.push(fixed(&[]));
        }
        v
    }

    pub fn queue(&mut self, errors: bool) -> Vec<Resp> {
        let n = self.r.below(4);
        let mut q = Vec::new();
        for _ in 0..n {
            q.push(match self.r.below(if errors { 9 } else { 6 }) {
                0 | 1 => Resp::P,
                2 => Resp::F,
                3 => Resp::S(1),
                4 => Resp::S(self.r.range(1, 20) as usize),
                5 => Resp::S(8191),
                6 | 7 => Resp::E,
                _ => Resp::X,
            });
        }
        q
    }

    fn random_ops(&mut self, spec: &ArchSpec, len: u64, faults: u8) -> Vec<Op> {
        let mut ops = Vec::new();
        let n = self.r.range(3, len);
        for _ in 0..n {
            if self.r.chance(1, 4) {
                ops.push(self.seek(spec, 1));
            } else {
                let cap = if self.r.chance(1, 25) { 0 } else { any_cap(&mut self.r) };
                let q = if faults > 0 { self.queue(faults > 1) } else { vec![] };
                ops.push(Op::Read { h: 1, cap, q });
            }
        }
        ops
    }

    pub fn seek(&mut self, spec: &ArchSpec, h: usize) -> Op {
        let to = any_offset(&mut self.r, spec);
        let via = self.r.pick(&["mut", "pin", "start", "cur", "end"]).to_string();
        Op::Seek { h, to, via }
    }

    pub fn drain(&mut self, h: usize) -> Op {
        let caps = (0..self.r.range(1, 3)).map(|_| any_cap(&mut self.r).max(5)).collect();
        Op::Drain { h, caps, qs: vec![] }
    }

    /// Schedules with exactly one (or two) unusual answers at every possible source call
    pub fn fault_points(&mut self, what: &[&[Resp]]) {
        let archs = if self.thorough {
            vec![
                fixed(&[("a", 20, "none"), ("bb", 0, "none"), ("c", 9, "right")]),
                fixed(&[("a", 20, "right"), ("c", 9, "none"), ("d", 1, "none")]),
                fixed(&[("big", 8200, "none"), ("c", 9, "none")]),
            ]
        } else {
            vec![
                fixed(&[("a", 20, "none"), ("bb", 0, "none"), ("c", 9, "right")]),
                fixed(&[("a", 20, "right"), ("c", 9, "none")]),
            ]
        };
        for spec in archs {
            let m = marks(&spec);
            let cd: u64 = spec.entries.iter().map(|e| LH + DD + e.name.len() as u64 + e.size).sum();
            let mut histories: Vec<Vec<Op>> = vec![
                vec![Op::Drain { h: 1, caps: vec![7], qs: vec![] }],
                vec![Op::Drain { h: 1, caps: vec![100], qs: vec![] }],
                vec![Op::Drain { h: 1, caps: vec![1000], qs: vec![] }],
            ];
            // Start at the middle and at the end of each entry, and in the central directory
            let mut starts: Vec<u64> = m.clone();
            starts.extend([cd + 2, cd + 80]);
            for s in starts {
                for cap in if self.thorough { vec![3, 40, 1000] } else { vec![40] } {
                    histories.push(vec![
                        Op::Seek { h: 1, to: s, via: "pin".into() },
                        Op::Drain { h: 1, caps: vec![cap], qs: vec![] },
                    ]);
                }
            }
            for ops in histories {
                let long = matches!(ops[0], Op::Drain { .. });
                for pattern in what {
                    for k in 0..(if long { 16 } else { 6 }) {
                        let mut script = vec![Resp::F; k];
                        script.extend_from_slice(pattern);
                        let mut ops = ops.clone();
                        // Afterwards, go back and read everything
                        if self.r.chance(1, 8) {
                            ops.push(Op::Seek { h: 1, to: 0, via: "pin".into() });
                            ops.push(Op::Drain { h: 1, caps: vec![64], qs: vec![] });
                        }
                        self.run_script(&spec, ops, script);
                    }
                }
            }
        }
    }

    pub fn c03(&mut self) {
        self.large(&["none"], 0);
        for spec in self.small_archs() {
            let t = total(&spec);
            for kind in ["scripted", "vec"] {
                let mut spec = spec.clone();
                if kind == "vec" && spec.entries.iter().any(|e| e.size != e.actual) {
                    continue;
                }
                spec.kind = kind.into();
                // Every offset on a fresh reader
                let step = if self.thorough || kind == "scripted" { 1 } else { 3 };
                let mut o = 0;
                while o < t + 3 {
                    let first = any_cap(&mut self.r);
                    let then = *self.r.pick(&[9usize, 40, 100, 1000]);
                    let via = self.r.pick(&["mut", "pin", "start", "cur", "end"]).to_string();
                    self.run(&spec, vec![
                        Op::Seek { h: 1, to: o, via },
                        Op::Read { h: 1, cap: first, q: vec![] },
                        Op::Drain { h: 1, caps: vec![then], qs: vec![] },
                    ]);
                    o += step;
                }
                // Every offset in one life, in random order
                for cap in [1usize, 4, 33, 200] {
                    let mut ops = Vec::new();
                    for _ in 0..(t as usize).min(self.n(150, 1000)) {
                        let to = self.r.below(t + 2);
                        ops.push(Op::Seek { h: 1, to, via: "pin".into() });
                        ops.push(Op::Read { h: 1, cap, q: vec![] });
                        ops.push(Op::Read { h: 1, cap: cap + 1, q: vec![] });
                    }
                    self.run(&spec, ops);
                }
                // Sequential with every buffer size
                for cap in 1..=self.n(70, 260) {
                    self.run(&spec, vec![Op::Drain { h: 1, caps: vec![cap], qs: vec![] }]);
                }
            }
        }
        for i in 0..self.n(500, 6000) {
            let max = if i % 12 == 0 { 20000 } else { 300 };
            let mut spec = any_arch(&mut self.r, max, &["none", "right"]);
            spec.kind = self.r.pick(&["scripted", "vec"]).to_string();
            let mut ops = self.random_ops(&spec, 24, 0);
            if self.r.chance(1, 2) {
                ops.push(self.drain(1));
            }
            self.run(&spec, ops);
        }
    }

    pub fn c04(&mut self) {
        self.large(&["none", "right"], 1);
        use Resp::*;
        self.fault_points(&[&[P], &[P, P], &[S(1)], &[S(1), P], &[S(3), P, S(2), P]]);
        for i in 0..self.n(700, 8000) {
            let max = if i % 15 == 0 { 20000 } else { 300 };
            let spec = any_arch(&mut self.r, max, &["none", "right"]);
            let mut ops = self.random_ops(&spec, 30, 1);
            let qs = (0..20).map(|_| self.queue(false)).collect();
            ops.push(Op::Drain { h: 1, caps: vec![any_cap(&mut self.r).max(3)], qs });
            self.run(&spec, ops);
        }
    }

    pub fn c05(&mut self) {
        self.large(&["none"], 2);
        use Resp::*;
        self.fault_points(&[&[E], &[E, E], &[P, E], &[S(2), E], &[X], &[E, P, E], &[S(1), P, X]]);
        for i in 0..self.n(700, 8000) {
            let max = if i % 15 == 0 { 20000 } else { 300 };
            let spec = any_arch(&mut self.r, max, &["none", "right"]);
            let mut ops = self.random_ops(&spec, 30, 2);
            let qs = (0..20).map(|_| self.queue(true)).collect();
            ops.push(Op::Drain { h: 1, caps: vec![any_cap(&mut self.r).max(3)], qs });
            self.run(&spec, ops);
        }
    }

    pub fn c06(&mut self) {
        self.large(&["none", "right"], 0);
        let mut pairs: Vec<(u64, u64)> = vec![
            (1, 0), (1, 2), (5, 0), (5, 4), (5, 6), (5, 50), (100, 99), (100, 101), (100, 8000),
            (8191, 8192), (8192, 8191), (8192, 8193), (8193, 8192), (8192, 0), (8192, 16384), (16384, 8192), (16385, 16384),
            (20000, 1), (3, 20000),
        ];
        if self.thorough {
            for d in 1..40 {
                for a in 0..45 {
                    if d != a {
                        pairs.push((d, a));
                    }
                }
            }
        } else {
            for d in 1..8 {
                for a in 0..9 {
                    if d != a {
                        pairs.push((d, a));
                    }
                }
            }
        }
        for (d, a) in pairs {
            for crc in ["none", "right", "wrong"] {
                for place in 0..3 {
                    let mut es = vec![EntrySpec::new("first", 6, "none", 1), EntrySpec::new("second", 4, "right", 2)];
                    let mut w = EntrySpec::new("wrong sized", d, crc, 3);
                    w.actual = a;
                    es.insert(place, w);
                    if place == 1 && crc == "none" && d < 50 {
                        // A second wrong one after it
                        es[2].actual += 1;
                    }
                    let spec = ArchSpec { entries: es, kind: "scripted".into(), giant: false };
                    let caps: Vec<usize> = match self.r.below(4) {
                        0 => vec![100_000],
                        1 => vec![any_cap(&mut self.r).max(5)],
                        2 => vec![(d.min(a) as usize).max(3)],
                        _ => vec![any_cap(&mut self.r).max(5), any_cap(&mut self.r)],
                    };
                    let mut qs = Vec::new();
                    match self.r.below(3) {
                        0 => {}
                        1 => qs = (0..12).map(|_| self.queue(false)).collect(),
                        _ => qs = (0..12).map(|_| self.queue(true)).collect(),
                    }
                    let mut ops = vec![Op::Drain { h: 1, caps, qs }];
                    for _ in 0..3 {
                        ops.push(Op::Read { h: 1, cap: any_cap(&mut self.r), q: vec![] });
                    }
                    self.run(&spec, ops);
                }
            }
        }
        // Entries of the right size never cause it
        for i in 0..self.n(600, 5000) {
            let max = if i % 10 == 0 { 20000 } else { 300 };
            let spec = any_arch(&mut self.r, max, &["none", "right"]);
            let mut ops = if i % 3 == 0 { vec![] } else { self.random_ops(&spec, 10, 1) };
            // Into the data of entries, reading them to the end afterwards
            if i % 2 == 0 {
                for _ in 0..3 {
                    let mut to = 0;
                    let at = self.r.below(spec.entries.len() as u64 + 1) as usize;
                    for e in &spec.entries[..at.min(spec.entries.len())] {
                        to += LH + DD + e.name.len() as u64 + e.size;
                    }
                    if let Some(e) = spec.entries.get(at) {
                        to += LH + e.name.len() as u64 + self.r.below(e.size + 2);
                    }
                    ops.push(Op::Seek { h: 1, to, via: "pin".into() });
                    for _ in 0..self.r.below(4) {
                        ops.push(Op::Read { h: 1, cap: any_cap(&mut self.r), q: self.queue(false) });
                    }
                    if self.r.chance(1, 2) {
                        let qs = (0..20).map(|_| self.queue(false)).collect();
                        ops.push(Op::Drain { h: 1, caps: vec![any_cap(&mut self.r).max(5)], qs });
                    }
                }
            }
            let qs = (0..20).map(|_| self.queue(false)).collect();
            ops.push(Op::Drain { h: 1, caps: vec![any_cap(&mut self.r).max(5)], qs });
            self.run(&spec, ops);
        }
    }

    /// Entries of more bytes than anything that has a fixed size is likely to have
    fn large(&mut self, kinds: &[&str], faults: u64) {
        for (i, size) in [65_535u64, 65_536, 65_537, 131_073, 300_000].into_iter().enumerate() {
            for (j, kind) in kinds.iter().enumerate() {
                let spec = fixed(&[("z", 3, "none"), ("a", size, kind), ("b", 5, "right")]);
                let base = (LH + 1 + 3 + DD) + LH + 1;
                for k in 0..self.n(2, 12) {
                    let cap = [300_000usize, 65_536, 8192, 70_001][(i + j + k as usize) % 4];
                    let qs = (0..if faults > 0 { 12 } else { 0 }).map(|_| self.queue(faults > 1)).collect();
                    let mut ops = vec![Op::Drain { h: 1, caps: vec![cap], qs }, Op::Crcs { h: 1 }, Op::Read { h: 1, cap: 9, q: vec![] }];
                    for to in [base + size - 7, base + self.r.below(size), base + size] {
                        ops.push(Op::Seek { h: 1, to, via: "pin".into() });
                        ops.push(Op::Read { h: 1, cap: 5, q: vec![] });
                        ops.push(Op::Drain { h: 1, caps: vec![cap], qs: vec![] });
                    }
                    if k % 2 == 1 {
                        // The other way round
                        ops.rotate_left(3);
                    }
                    ops.push(Op::Crcs { h: 1 });
                    self.run(&spec, ops);
                }
            }
        }
    }

    pub fn c07(&mut self) {
        self.large(&["none", "right", "wrong"], 2);
        use Resp::*;
        for i in 0..self.n(900, 9000) {
            let max = if i % 25 == 0 { 20000 } else { 300 };
            let kinds: &[&str] = match i % 3 {
                0 => &["none", "right", "wrong"],
                1 => &["none"],
                _ => &["none", "right"],
            };
            let spec = any_arch(&mut self.r, max, kinds);
            let mut ops = Vec::new();
            for _ in 0..self.r.range(1, 6) {
                let n = self.r.range(1, 5);
                for _ in 0..n {
                    if self.r.chance(1, 3) {
                        ops.push(self.seek(&spec, 1));
                    } else {
                        let faults = self.r.below(3);
                        let q = if faults > 0 { self.queue(faults > 1) } else { vec![] };
                        ops.push(Op::Read { h: 1, cap: any_cap(&mut self.r), q });
                    }
                }
                ops.push(Op::Crcs { h: 1 });
                match self.r.below(6) {
                    0 => {
                        ops.push(Op::Clone { h: 1, nh: 2 });
                        ops.push(Op::Crcs { h: 2 });
                        ops.push(Op::Drop { h: 1 });
                        ops.push(Op::Clone { h: 2, nh: 1 });
                        ops.push(Op::Drop { h: 2 });
                        ops.push(Op::Crcs { h: 1 });
                    }
                    1 => {
                        ops.push(Op::Take { h: 1, nh: 2 });
                        ops.push(Op::Crcs { h: 2 });
                        ops.push(Op::Drop { h: 1 });
                        ops.push(Op::Clone { h: 2, nh: 1 });
                        ops.push(Op::Drop { h: 2 });
                    }
                    _ => {}
                }
            }
            let qs = if self.r.chance(1, 2) { (0..20).map(|_| self.queue(true)).collect() } else { vec![] };
            ops.push(Op::Drain { h: 1, caps: vec![any_cap(&mut self.r).max(3)], qs });
            ops.push(Op::Crcs { h: 1 });
            self.run(&spec, ops);
        }
        // Skipping part of the data, with every answer cut short: the checksum needs all of it
        for (size, to) in [(20u64, 1u64), (20, 19), (20, 20), (8200, 8192), (8200, 8191), (8200, 8199), (16400, 8193), (16400, 16399)] {
            for script in [vec![], vec![F, S(1), S(1)], vec![F, S(1), P, S(2), E, S(3)], vec![P, E, F, S(7), P]] {
                for cap in [5usize, 8192, 20000] {
                    let spec = fixed(&[("z", 3, "none"), ("a", size, "none"), ("b", 5, "none")]);
                    let base = (LH + 1 + 3 + DD) + LH + 1;
                    self.run_script(&spec, vec![
                        Op::Seek { h: 1, to: base + to, via: "pin".into() },
                        Op::Drain { h: 1, caps: vec![cap], qs: vec![] },
                        Op::Crcs { h: 1 },
                        Op::Seek { h: 1, to: base + to / 2, via: "pin".into() },
                        Op::Drain { h: 1, caps: vec![cap + 3], qs: vec![] },
                        Op::Crcs { h: 1 },
                    ], script.clone());
                }
            }
        }
        // Wrong values
        for (size, cap) in [(1u64, 5usize), (10, 5), (10, 300), (8192, 8192), (8193, 4096), (9, 9)] {
            for script in [vec![], vec![P, P, S(1), P], vec![F, S(3), E, S(2), E], vec![E, E, E]] {
                let spec = fixed(&[("z", 3, "none"), ("a", size, "wrong"), ("b", 5, "right")]);
                let mut ops = vec![Op::Drain { h: 1, caps: vec![cap], qs: vec![] }, Op::Crcs { h: 1 }];
                for _ in 0..3 {
                    ops.push(Op::Read { h: 1, cap, q: vec![P] });
                }
                // Start again at the entry
                let lh = LH + 1 + 3 + DD;
                let d = self.r.below(LH + 2);
                ops.push(Op::Seek { h: 1, to: lh + d, via: "pin".into() });
                ops.push(Op::Drain { h: 1, caps: vec![cap], qs: vec![] });
                ops.push(Op::Crcs { h: 1 });
                self.run_script(&spec, ops, script);
            }
        }
    }

    pub fn c08(&mut self) {
        self.large(&["none", "right"], 0);
        for spec in self.small_archs() {
            for o in 0..total(&spec) + 2 {
                let c = any_cap(&mut self.r);
                self.run(&spec, vec![
                    Op::Crcs { h: 1 },
                    Op::Size { h: 1 },
                    Op::Seek { h: 1, to: o, via: "cur".into() },
                    Op::Read { h: 1, cap: c, q: vec![] },
                    Op::Crcs { h: 1 },
                    Op::Read { h: 1, cap: 50, q: vec![] },
                    Op::Crcs { h: 1 },
                    Op::Seek { h: 1, to: o / 2, via: "end".into() },
                    Op::Read { h: 1, cap: 60, q: vec![] },
                    Op::Clone { h: 1, nh: 2 },
                    Op::Take { h: 1, nh: 3 },
                    Op::Drain { h: 3, caps: vec![100], qs: vec![] },
                    Op::Drain { h: 2, caps: vec![70], qs: vec![] },
                ]);
            }
        }
        for i in 0..self.n(600, 6000) {
            let max = if i % 20 == 0 { 20000 } else { 300 };
            let kinds: &[&str] = match i % 3 {
                0 => &["right"],
                1 => &["none"],
                _ => &["none", "right"],
            };
            let spec = any_arch(&mut self.r, max, kinds);
            let mut ops = Vec::new();
            for _ in 0..self.r.range(2, 20) {
                match self.r.below(10) {
                    0..=2 => ops.push(self.seek(&spec, 1)),
                    3 => {
                        ops.push(Op::Clone { h: 1, nh: 2 });
                        ops.push(Op::Drop { h: 1 });
                        ops.push(Op::Take { h: 2, nh: 1 });
                        ops.push(Op::Drop { h: 2 });
                    }
                    _ => {
                        let f = self.r.below(3);
                        let q = if f > 0 { self.queue(f > 1) } else { vec![] };
                        ops.push(Op::Read { h: 1, cap: any_cap(&mut self.r), q });
                    }
                }
                ops.push(Op::Crcs { h: 1 });
            }
            ops.push(self.drain(1));
            self.run(&spec, ops);
        }
    }

    pub fn c12(&mut self) {
        for i in 0..self.n(900, 9000) {
            let max = if i % 25 == 0 { 20000 } else { 300 };
            let mut spec = any_arch(&mut self.r, max, &["none", "right"]);
            if i % 9 == 0 {
                spec.kind = "vec".into();
            }
            let mut ops = Vec::new();
            let mut live = vec![1usize];
            let mut next = 2;
            for _ in 0..self.r.range(4, 24) {
                let h = *self.r.pick(&live);
                match self.r.below(12) {
                    0..=1 => ops.push(self.seek(&spec, h)),
                    2..=3 if live.len() < 4 => {
                        ops.push(Op::Crcs { h });
                        ops.push(if self.r.chance(1, 2) { Op::Clone { h, nh: next } } else { Op::Take { h, nh: next } });
                        ops.push(Op::Crcs { h: next });
                        ops.push(Op::Size { h: next });
                        ops.push(Op::Crcs { h });
                        ops.push(Op::Size { h });
                        live.push(next);
                        next += 1;
                    }
                    4 if live.len() > 1 => {
                        ops.push(Op::Drop { h });
                        live.retain(|x| *x != h);
                    }
                    _ => {
                        let f = self.r.below(3);
                        let q = if f > 0 { self.queue(f > 1) } else { vec![] };
                        ops.push(Op::Read { h, cap: any_cap(&mut self.r), q });
                    }
                }
            }
            for h in live {
                ops.push(self.drain(h));
                ops.push(Op::Crcs { h });
            }
            self.run(&spec, ops);
        }
        // At every position, with the next read in every state of progress
        for spec in self.small_archs() {
            for o in 0..total(&spec) + 2 {
                let take = self.r.chance(1, 2);
                let cap = any_cap(&mut self.r);
                let q = self.queue(true);
                self.run(&spec, vec![
                    Op::Seek { h: 1, to: o, via: "pin".into() },
                    Op::Read { h: 1, cap: 1 + (o % 9) as usize, q },
                    Op::Crcs { h: 1 },
                    if take { Op::Take { h: 1, nh: 2 } } else { Op::Clone { h: 1, nh: 2 } },
                    Op::Crcs { h: 2 },
                    Op::Read { h: 1, cap, q: vec![] },
                    Op::Read { h: 2, cap: cap + 1, q: vec![] },
                    Op::Drain { h: 2, caps: vec![90], qs: vec![] },
                    Op::Drain { h: 1, caps: vec![90], qs: vec![] },
                    Op::Size { h: 1 },
                ]);
            }
        }
    }

    /// Real files
    pub fn c17(&mut self) {
        // Every offset, on a fresh reader
        for mut spec in self.small_archs() {
            spec.kind = "fs".into();
            for o in 0..total(&spec) + 2 {
                let cap = any_cap(&mut self.r);
                let once = if self.r.chance(1, 3) { vec![Resp::P] } else { vec![] };
                self.run(&spec, vec![
                    Op::Seek { h: 1, to: o, via: "pin".into() },
                    Op::Read { h: 1, cap, q: once },
                    Op::Drain { h: 1, caps: vec![50], qs: vec![] },
                ]);
            }
        }
        for i in 0..self.n(250, 4000) {
            let max = if i % 6 == 0 { 20000 } else { 300 };
            let mut spec = any_arch(&mut self.r, max, &["none", "right"]);
            spec.kind = "fs".into();
            let mut ops = vec![];
            let mut live = vec![1usize];
            for _ in 0..self.r.range(2, 16) {
                let h = *self.r.pick(&live);
                match self.r.below(9) {
                    0 | 1 => ops.push(self.seek(&spec, h)),
                    2 if live.len() < 3 => {
                        let nh = live.len() + 1;
                        ops.push(if self.r.chance(1, 2) { Op::Clone { h, nh } } else { Op::Take { h, nh } });
                        live.push(nh);
                    }
                    3 => ops.push(Op::Crcs { h }),
                    4 => {
                        ops.push(Op::Stream { h });
                        ops.push(Op::Next { h, q: if self.r.chance(1, 2) { vec![Resp::P] } else { vec![] } });
                        ops.push(Op::Next { h, q: vec![] });
                        ops.push(Op::Unstream { h });
                    }
                    _ => {
                        let q = if self.r.chance(1, 3) { vec![Resp::P] } else { vec![] };
                        ops.push(Op::Read { h, cap: any_cap(&mut self.r), q });
                    }
                }
            }
            for h in live {
                ops.push(self.drain(h));
                ops.push(Op::Crcs { h });
            }
            self.run(&spec, ops);
        }
    }

    /// Real files that have changed their length
    pub fn w17(&mut self) {
        for i in 0..self.n(150, 2000) {
            let max = if i % 6 == 0 { 20000 } else { 300 };
            let mut spec = any_arch(&mut self.r, max, &["none", "right"]);
            spec.kind = "fs".into();
            let n = spec.entries.len() as u64;
            for _ in 0..n.min(2) {
                let k = self.r.below(n) as usize;
                let e = &mut spec.entries[k];
                if e.size > 0 {
                    e.crc = "none".into();
                    e.actual = match self.r.below(5) {
                        0 => 0,
                        1 => e.size - 1,
                        2 => e.size + 1,
                        3 => self.r.below(2 * e.size + 2),
                        _ => e.size + 8192,
                    };
                }
            }
            let again = self.drain(1);
            let d = self.drain(1);
            self.run(&spec, vec![d, again]);
        }
    }

    pub fn c13(&mut self) {
        for spec in self.small_archs() {
            for o in 0..total(&spec) + 2 {
                let q1 = self.queue(true);
                let qs = (0..4).map(|_| self.queue(true)).collect();
                self.run(&spec, vec![
                    Op::Seek { h: 1, to: o, via: "pin".into() },
                    Op::Stream { h: 1 },
                    Op::Next { h: 1, q: q1 },
                    Op::Drain { h: 1, caps: vec![1], qs },
                    Op::Next { h: 1, q: vec![] },
                ]);
            }
        }
        for i in 0..self.n(700, 6000) {
            let max = if i % 4 == 0 { 20000 } else { 300 };
            let spec = any_arch(&mut self.r, max, &["none", "right"]);
            let mut ops = vec![];
            if self.r.chance(1, 2) {
                ops.push(self.seek(&spec, 1));
            }
            ops.push(Op::Stream { h: 1 });
            let mut is_stream = true;
            let mut next = 2;
            let mut others = vec![];
            for _ in 0..self.r.range(2, 16) {
                match self.r.below(10) {
                    0 => {
                        ops.push(if is_stream { Op::Unstream { h: 1 } } else { Op::Stream { h: 1 } });
                        is_stream = !is_stream;
                    }
                    1 => {
                        ops.push(Op::Clone { h: 1, nh: next });
                        others.push(next);
                        next += 1;
                    }
                    2 if self.r.chance(1, 3) => ops.push(self.seek(&spec, 1)),
                    _ => {
                        let f = self.r.below(3);
                        let q = if f > 0 { self.queue(f > 1) } else { vec![] };
                        if is_stream {
                            ops.push(Op::Next { h: 1, q });
                        } else {
                            ops.push(Op::Read { h: 1, cap: any_cap(&mut self.r), q });
                        }
                    }
                }
            }
            ops.push(self.drain(1));
            for h in others.into_iter().take(2) {
                ops.push(self.drain(h));
            }
            self.run(&spec, ops);
        }
    }

    /// Random access in archives of any size
    pub fn w03(&mut self) {
        let r = "right";
        let archs = vec![
            wide(&[(5, "none"), ((1 << 32) + 77, r), (30, "none"), ((1 << 33) + 12_345, r), (0, "none")]),
            wide(&[((1 << 31) - 1, r), (1 << 31, r), (9, "none")]),
            wide(&[((1 << 32) - 1, r), (1 << 32, r), (20, r)]),
            wide(&[((1 << 32) - 60, r), (300, "none"), (4, r)]),
            wide(&[(1 << 63, r), (100, "none")]),
            wide(&[((1 << 40) + 3, r), ((1 << 48) + 9, r), (7, "none"), (1 << 24, r)]),
            wide(&[(u64::MAX - 5000, r)]),
            many(17),
            many(70),
            many(140),
            many(300),
        ];
        for spec in archs {
            let marks = marks(&spec);
            for _ in 0..self.n(90, 900) {
                let mut ops = Vec::new();
                let mut hs = vec![1usize];
                let mut next = 2;
                for _ in 0..self.r.range(2, 7) {
                    let h = *self.r.pick(&hs);
                    // To somewhere near a boundary, or into data at any distance from where they begin
                    let to = if self.r.chance(1, 2) {
                        (self.r.pick(&marks) + self.r.below(90)).saturating_sub(60)
                    } else {
                        let i = self.r.below(spec.entries.len() as u64) as usize;
                        let e = &spec.entries[i];
                        let d = (self.r.next() >> self.r.below(64)).min(e.size);
                        let at = marks[8 * i + 3];
                        if self.r.chance(1, 2) { at + d } else { at + e.size - d }
                    };
                    match self.r.below(5) {
                        0 => ops.push(Op::Seek { h, to, via: self.r.pick(&["mut", "pin"]).to_string() }),
                        _ => ops.push(Op::Raw { h, org: "start".into(), off: to.to_string() }),
                    }
                    for _ in 0..self.r.range(1, 4) {
                        let mut q = Vec::new();
                        if self.r.chance(1, 3) {
                            q = self.queue(true);
                        }
                        ops.push(Op::Read { h, cap: *self.r.pick(&[1, 4, 20, 40, 60, 100, 150]), q });
                    }
                    match self.r.below(9) {
                        0 => {
                            ops.push(Op::Clone { h, nh: next });
                            hs.push(next);
                            next += 1;
                        }
                        1 => {
                            ops.push(Op::Take { h, nh: next });
                            ops.push(Op::Read { h, cap: 60, q: vec![] });
                            ops.push(Op::Drop { h });
                            hs.retain(|x| *x != h);
                            hs.push(next);
                            next += 1;
                        }
                        _ => {}
                    }
                }
                self.run_pred(&spec, ops, vec![], true, vec![]);
            }
        }
    }

    /// Entries that are declared large and have little data
    pub fn w06(&mut self) {
        for declared in [6u64, 256 + 5, (1 << 16) + 5, (1 << 16) + 100, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 32) + 8192, (1 << 40) + 5, (1 << 63) + 5, u64::MAX - 2000] {
            for actual in [0u64, 4, 5, 6, 100, 8192].into_iter().filter(|n| *n < declared) {
                for place in 0..3 {
                    let crc = *self.r.pick(&["none", "right"]);
                    let mut spec = wide(&[(6, "none"), (4, "right"), (1 << 32, "right")]);
                    spec.entries.truncate(2);
                    let mut w = EntrySpec::new("wrong sized", declared, crc, 7);
                    w.actual = actual;
                    spec.entries.insert(place, w);
                    let mut ops = Vec::new();
                    if self.r.chance(1, 3) {
                        // From the start of its data
                        let to = marks(&spec)[8 * place + 3];
                        ops.push(Op::Raw { h: 1, org: "start".into(), off: to.to_string() });
                    }
                    let caps = vec![any_cap(&mut self.r).max(20)];
                    let qs = if self.r.chance(1, 2) { (0..12).map(|_| self.queue(true)).collect() } else { vec![] };
                    ops.push(Op::Drain { h: 1, caps, qs });
                    ops.push(Op::Read { h: 1, cap: any_cap(&mut self.r), q: vec![] });
                    self.run_pred(&spec, ops, vec![], true, vec![]);
                }
            }
        }
    }

    pub fn c18(&mut self) {
        let giant = |sizes: &[u64], crc: &str| wide(&sizes.iter().map(|s| (*s, crc)).collect::<Vec<_>>());
        let archs = vec![
            fixed(&[]),
            wide(&[(5, "none"), (0, "none"), (30, "right")]),
            giant(&[1 << 31, 10], "right"),
            giant(&[1 << 32, 3, (1 << 33) + 5], "right"),
            giant(&[(1 << 63) - 1000], "right"),
            giant(&[1 << 63, 77], "right"),
            giant(&[1 << 63, (1 << 63) - 600], "right"),
            giant(&[u64::MAX - 98 - 160 - 10], "right"),
        ];
        for spec in archs {
            let t: u128 = spec.entries.iter().map(|e| u128::from(LH + DD + CDH + 2 * e.name.len() as u64) + u128::from(e.size)).sum::<u128>() + u128::from(END);
            assert!(t <= u128::from(u64::MAX));
            let t = t as i128;
            let max = i128::from(u64::MAX);
            let mut targets: Vec<i128> = vec![0, 1, 2, 57, 98, 99, t - 99, t - 98, t - 1, t, t + 1, t + 1000, max, max - 1,
                i128::from(i64::MAX), i128::from(i64::MAX) + 1, i128::from(i64::MAX) - 1, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) - 1, t / 2, t / 2 + 1];
            targets.retain(|x| *x >= 0 && *x <= max);
            let offs: Vec<i128> = vec![0, 1, -1, -2, 97, -97, -98, -99, 98, i128::from(i64::MIN), i128::from(i64::MIN) + 1, i128::from(i64::MAX), i128::from(i64::MAX) - 1,
                1 << 31, -(1i128 << 31), 1 << 32, -(1i128 << 32), -t, -t - 1, -t + 1, t, t / 2, -(t / 2)];
            let rounds = self.n(3, 30);
            for round in 0..rounds {
                for start in &targets {
                    let mut ops = vec![Op::Raw { h: 1, org: "start".into(), off: start.to_string() }];
                    if round == 0 || self.r.chance(1, 2) {
                        ops.push(Op::Read { h: 1, cap: 5, q: vec![] });
                    }
                    for _ in 0..self.r.range(2, 8) {
                        let org = *self.r.pick(&["cur", "cur", "end", "start"]);
                        let mut off = match self.r.below(4) {
                            0 | 1 => *self.r.pick(&offs),
                            2 => *self.r.pick(&targets) * if self.r.chance(1, 2) { 1 } else { -1 } + i128::from(self.r.below(3)) - 1,
                            _ => i128::from(self.r.next() as i64) >> self.r.below(64),
                        };
                        if org == "start" {
                            off = off.abs().min(max);
                        } else {
                            off = off.clamp(i128::from(i64::MIN), i128::from(i64::MAX));
                        }
                        ops.push(Op::Raw { h: 1, org: org.into(), off: off.to_string() });
                        // Only a few bytes, so that headers are crossed but not data
                        if self.r.chance(2, 3) {
                            ops.push(Op::Read { h: 1, cap: self.r.range(1, 64) as usize, q: vec![] });
                        }
                    }
                    self.run_pred(&spec, ops, vec![], true, vec![]);
                }
            }
        }
    }

    /// Behaviours of the specification: one JSON object per line
    pub fn behaviours(&mut self, path: &str) {
        let f = std::io::BufReader::new(std::fs::File::open(path).expect("behaviours"));
        for line in f.lines() {
            let v: Value = serde_json::from_str(&line.unwrap()).expect("behaviour");
            let spec: ArchSpec = ArchSpec {
                entries: v["entries"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .enumerate()
                    .map(|(i, e)| {
                        let mut s = EntrySpec::new(&"n".repeat(e["nl"].as_u64().unwrap() as usize), e["size"].as_u64().unwrap(), e["gk"].as_str().unwrap(), i as u64 + 5);
                        s.name.push_str(&i.to_string());
                        s.name.remove(0);
                        s.actual = e["actual"].as_u64().unwrap();
                        s
                    })
                    .collect(),
                kind: "scripted".into(),
                giant: false,
            };
            let stream = v["stream"] == true;
            let mut ops = if stream { vec![Op::Stream { h: 1 }] } else { vec![] };
            let mut pred = Vec::new();
            // Readers that became responses
            let mut lent = std::collections::BTreeSet::new();
            for o in v["ops"].as_array().unwrap() {
                let h = o["h"].as_u64().unwrap() as usize;
                let nh = o["nh"].as_u64().unwrap_or(0) as usize;
                match o["op"].as_str().unwrap() {
                    "read" => {
                        let q = o["q"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|x| match x["k"].as_str().unwrap() {
                                "P" => Resp::P,
                                "E" => Resp::E,
                                "X" => Resp::X,
                                "S" => Resp::S(x["n"].as_u64().unwrap() as usize),
                                _ => Resp::F,
                            })
                            .collect();
                        pred.push((o["res"].as_str().unwrap().to_string(), o["n"].as_i64().unwrap()));
                        ops.push(if stream || lent.contains(&h) { Op::Next { h, q } } else { Op::Read { h, cap: o["cap"].as_u64().unwrap() as usize, q } });
                    }
                    "seek" => ops.push(Op::Seek { h, to: o["to"].as_u64().unwrap(), via: "pin".into() }),
                    "clone" => ops.push(Op::Clone { h, nh }),
                    "take" => ops.push(Op::Take { h, nh }),
                    "drop" => ops.push(Op::Drop { h }),
                    "crcs" => ops.push(Op::Crcs { h }),
                    "adapt" => {
                        lent.insert(h);
                        ops.push(Op::Adapt { h, chan: true });
                    }
                    "respond" => ops.push(Op::Respond { h, hdr: o["hdr"].as_str().map(str::to_string) }),
                    "recv" => ops.push(Op::Recv { h, nh }),
                    "hangup" => ops.push(Op::Hangup { h }),
                    x => panic!("HARNESS: {x}"),
                }
            }
            self.run_pred(&spec, ops, pred, false, vec![]);
        }
    }
}

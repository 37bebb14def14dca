//! Generates HTTP scenarios.
use crate::rexec::*;
use crate::rgen::*;
use crate::util::*;
use crate::world::*;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

fn text(s: &str) -> Option<String> {
    Some(hex(s.as_bytes()))
}

/// A Range header for a file of the given size
pub fn any_header(r: &mut Rng, size: u64) -> Vec<u8> {
    let number = |r: &mut Rng| -> String {
        match r.below(12) {
            0 => "0".into(),
            1 => format!("0{}", r.below(size)),
            2 => format!("+{}", r.below(size)),
            3 => r.pick(&["18446744073709551615", "18446744073709551616", "18446744073709551614", "99999999999999999999", "9223372036854775807", "9223372036854775808", "4294967296", "4294967295"]).to_string(),
            4 | 5 => format!("{}", (i128::from(size) + i128::from(r.below(5)) - 2).max(0)),
            6 => format!("{}", r.below(3)),
            _ => format!("{}", r.below(size)),
        }
    };
    let one = |r: &mut Rng| -> String {
        let (a, b) = (number(r), number(r));
        match r.below(16) {
            0 => format!("-{a}"),
            1 | 2 => format!("{a}-"),
            3 => format!("{a}"),
            4 => r.pick(&["-", "", " ", "--1", "1--2", "a-b", "0x1-5", "1-2-3", "-0", "0-", "0-0", "\u{b2}-3", "1.0-2", "1e1-20", "-+5", "0-+5"]).to_string(),
            5 => format!(" {a}-{b}"),
            6 => format!("{a}-{b} "),
            7 => format!("{a} - {b}"),
            8 => format!("\t{a}-{b}"),
            _ => match (a.parse::<u128>(), b.parse::<u128>()) {
                // Mostly the right way round
                (Ok(x), Ok(y)) if x > y && r.chance(3, 4) => format!("{b}-{a}"),
                _ => format!("{a}-{b}"),
            },
        }
    };
    let unit = match r.below(20) {
        0 => *r.pick(&["", "bytes", "bytes ", "Bytes=", "BYTES=", "bytes =", " bytes=", "items=", "bytes:", "byte=", "xbytes=", "bytes==", "bytes= ", "bytes=bytes=", "none"]),
        _ => "bytes=",
    };
    let n = match r.below(5) {
        0 => 2,
        1 if r.chance(1, 2) => 3,
        _ => 1,
    };
    let mut s = String::from(unit);
    if n > 1 && r.chance(1, 2) {
        // Several in order
        let mut at = 0u64;
        for i in 0..n {
            let a = at.saturating_add(r.below(size / 4 + 1));
            let b = a.saturating_add(r.below(size / 4 + 1));
            at = b.saturating_add(r.below(3));
            s.push_str(&format!("{}{a}-{b}", if i > 0 { "," } else { "" }));
        }
    } else {
        for i in 0..n {
            if i > 0 {
                s.push_str(*r.pick(&[",", ",", ", ", " ,"]));
            }
            s.push_str(&one(r));
        }
    }
    let mut v: Vec<u8> = s.into_bytes();
    if r.chance(1, 40) {
        let at = r.below(v.len() as u64 + 1) as usize;
        v.insert(at, *r.pick(&[b'\t', 0x80, 0xff, b'x', b'-', b',', b'=', b'1']));
    }
    v
}

/// Answers requests for archives of any size, with the first blocks of the bodies, and what each starts and ends with
pub fn ranges(out: &mut Out, seed: u64, thorough: bool, behaviours: Option<&str>) {
    let mut r = Rng::new(seed ^ 0x4A0);
    let mut id = 0;
    let mut run = |out: &mut Out, spec: &ArchSpec, headers: Vec<Option<String>>| {
        id += 1;
        range_trace(out, &format!("range-{id}"), spec, headers);
    };
    if let Some(b) = behaviours {
        let txt = std::fs::read_to_string(b).expect("behaviours");
        let all: Vec<Option<String>> =
            txt.lines().map(|l| serde_json::from_str::<Value>(l).unwrap()["hdr"].as_str().map(|s| s.to_string())).collect();
        out.add("headers from the model", all.len() as u64);
        for c in all.chunks(400) {
            run(out, &wide(&[]), c.to_vec());
        }
    }
    let giant = |sizes: &[u64]| wide(&sizes.iter().map(|s| (*s, "right")).collect::<Vec<_>>());
    let archs = [
        wide(&[]),
        wide(&[(5, "none"), (0, "none"), (30, "right")]),
        wide(&[(20_000, "right")]),
        wide(&[(8192 * 2 - 58, "none"), (8192, "right")]),
        giant(&[1 << 31, 10]),
        giant(&[(1 << 32) - 98 - 160]),
        giant(&[1 << 32, 3, (1 << 33) + 5]),
        giant(&[(1 << 63) - 98 - 160]),
        giant(&[1 << 63, 77]),
        giant(&[u64::MAX - 98 - 160]),
    ];
    for spec in archs {
        let size = u64::try_from(spec.entries.iter().map(|e| u128::from(58 + 24 + 74 + 2 * e.name.len() as u64) + u128::from(e.size)).sum::<u128>() + 98).unwrap();
        for _ in 0..if thorough { 200 } else { 12 } {
            let headers = (0..100)
                .map(|i| {
                    // Lengths that are small but for a multiple of some power of two
                    let n = ((r.next() >> r.below(32)) & !0xffff_ffff) + 1 + r.below(9000);
                    match i {
                        0 => None,
                        _ if i % 6 == 0 && n < size => {
                            let a = r.below(size - n + 1) >> r.below(64);
                            text(&r.pick(&[format!("bytes={a}-{}", a + n - 1), format!("bytes=-{n}")]).clone())
                        }
                        _ => Some(hex(&any_header(&mut r, size))),
                    }
                })
                .collect();
            run(out, &spec, headers);
        }
    }
}

pub fn range_trace(out: &mut Out, id: &str, spec: &ArchSpec, headers: Vec<Option<String>>) {
    let desc = json!({"range": true, "arch": spec, "headers": headers}).to_string();
    let a = out.arch(&arch_json(spec, true));
    crate::set_current(&desc);
    let world: World = Rc::new(RefCell::new(WorldState::default()));
    let mut ops = Vec::new();
    let b = builder::<Scripted>(spec, &world, false);
    let size = b.size();
    let proto = b.build();
    for h in &headers {
        if let Some(h) = h
            && actix_web::http::header::HeaderValue::from_bytes(&crate::web::unhex(h)).is_err()
        {
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| {
            let (mut resp, mut v) = crate::web::respond(proto.clone().into_responder(), h.as_deref());
            first_blocks(&mut resp, &mut v, if h.is_none() { 2 } else { ops.len() % 4 });
            v
        }));
        match r {
            Ok(v) => {
                out.count(&format!("status {}", v["status"]));
                ops.push(v);
            }
            Err(p) => {
                ops.push(json!({"op": "panic", "msg": panic_text(&*p), "hdr": h}));
                break;
            }
        }
    }
    out.spec(id, &desc);
    out.trace(&json!({"id": id, "a": a, "size": limbs(size), "ops": ops}));
}

/// Up to n blocks of a body
fn first_blocks(resp: &mut crate::web::Response, v: &mut Value, n: usize) {
    let mut blocks = Vec::new();
    let mut end = "";
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let mut calls = 0;
    while blocks.len() < n {
        calls += 1;
        end = match crate::web::poll_body(resp, &mut cx) {
            // No source waits
            std::task::Poll::Pending if calls < 20 => continue,
            std::task::Poll::Pending => "stuck",
            std::task::Poll::Ready(None) => "end",
            std::task::Poll::Ready(Some(Err(_))) => "error",
            std::task::Poll::Ready(Some(Ok(b))) => {
                let m = b.len().min(24);
                blocks.push(json!({"n": b.len(), "first": hex(&b[..m]), "last": hex(&b[b.len() - m..])}));
                continue;
            }
        };
        break;
    }
    v["blocks"] = json!(blocks);
    v["end"] = json!(end);
}

impl Gen<'_> {
    fn header(&mut self, t: u64) -> Option<String> {
        match self.r.below(6) {
            0 => None,
            1 => Some(hex(&any_header(&mut self.r, t))),
            2 => text("bytes=0-"),
            3 => {
                let n = self.r.range(1, t);
                text(&format!("bytes=-{n}"))
            }
            _ => {
                let a = self.r.below(t);
                let b = if self.r.chance(1, 2) { self.r.range(a, t) } else { a + self.r.below(60) };
                text(&format!("bytes={a}-{b}"))
            }
        }
        .filter(|h| actix_web::http::header::HeaderValue::from_bytes(&crate::web::unhex(h)).is_ok())
    }

    fn web_arch(&mut self, i: usize) -> ArchSpec {
        let max = if i % 7 == 0 { 20_000 } else { 300 };
        any_arch(&mut self.r, max, &["none", "none", "right"])
    }

    pub fn c14(&mut self) {
        // Every range of a small file, in steps
        let spec = fixed(&[("a", 5, "none")]);
        let t = total(&spec);
        let step = if self.thorough { 1 } else { 7 };
        let mut a = 0;
        while a < t {
            let mut b = a;
            while b < t {
                self.run(&spec, vec![
                    Op::Adapt { h: 1, chan: false },
                    Op::Respond { h: 1, hdr: text(&format!("bytes={a}-{b}")) },
                    Op::Drain { h: 1, caps: vec![1], qs: vec![] },
                    Op::Next { h: 1, q: vec![] },
                    Op::Drop { h: 1 },
                ]);
                b += step + self.r.below(step);
            }
            a += step;
        }
        // Around block boundaries
        for (name, size) in [("x", 8192u64), ("y", 8193), ("z", 16_384 + 50)] {
            let spec = fixed(&[(name, size, "none"), ("after", 9, "none")]);
            for a in [0u64, 1, 59, 8191, 8192, 8192 + 58] {
                for len in [1u64, 100, 8191, 8192, 8193, 8250, 16_384] {
                    if a + len > total(&spec) {
                        continue;
                    }
                    self.run(&spec, vec![
                        Op::Adapt { h: 1, chan: false },
                        Op::Respond { h: 1, hdr: text(&format!("bytes={a}-{}", a + len - 1)) },
                        Op::Drain { h: 1, caps: vec![1], qs: vec![] },
                        Op::Drop { h: 1 },
                    ]);
                }
            }
        }
        for i in 0..self.n(700, 8000) {
            let spec = self.web_arch(i);
            let t = total(&spec);
            let mut ops = Vec::new();
            if self.r.chance(1, 3) {
                // Something happened to the reader before
                for _ in 0..self.r.below(3) {
                    ops.push(Op::Read { h: 1, cap: any_cap(&mut self.r), q: vec![] });
                }
                if self.r.chance(1, 3) {
                    ops.push(Op::Drain { h: 1, caps: vec![1000], qs: vec![] });
                }
                if self.r.chance(1, 2) {
                    ops.push(self.seek(&spec, 1));
                }
            }
            ops.push(Op::Adapt { h: 1, chan: self.r.chance(1, 2) });
            let hdr = self.header(t);
            ops.push(Op::Respond { h: 1, hdr });
            let errors = self.r.chance(1, 3);
            let qs = (0..12).map(|_| self.queue(errors)).collect();
            ops.push(Op::Drain { h: 1, caps: vec![1], qs });
            ops.push(Op::Next { h: 1, q: vec![] });
            ops.push(Op::Drop { h: 1 });
            self.run(&spec, ops);
        }
    }

    pub fn c15(&mut self) {
        for i in 0..self.n(1200, 12_000) {
            let mut spec = self.web_arch(i);
            // Sometimes a source fails for good
            if self.r.chance(1, 10) && !spec.entries.is_empty() {
                let k = self.r.below(spec.entries.len() as u64) as usize;
                let e = &mut spec.entries[k];
                if e.size > 0 && e.crc == "none" {
                    e.actual = e.size / 2;
                }
            }
            // Then only the whole file is asked for: otherwise nobody notices
            let exact = spec.entries.iter().all(|e| e.size == e.actual);
            let t = total(&spec);
            let mut ops = Vec::new();
            let mut h = 1;
            // Served again and again with the reader that was handed back
            for _round in 0..if exact { self.r.range(1, 3) } else { 1 } {
                if exact && self.r.chance(1, 3) {
                    for _ in 0..self.r.below(3) {
                        ops.push(Op::Read { h, cap: any_cap(&mut self.r), q: self.queue(true) });
                    }
                    if self.r.chance(1, 2) {
                        ops.push(self.seek(&spec, h));
                    }
                }
                let hangup = self.r.chance(1, 12);
                ops.push(Op::Adapt { h, chan: true });
                let look = |s: &mut Self, ops: &mut Vec<Op>| {
                    if s.r.chance(1, 4) {
                        ops.push(Op::Recv { h, nh: h + 1 });
                    }
                };
                look(self, &mut ops);
                if hangup && self.r.chance(1, 3) {
                    ops.push(Op::Hangup { h });
                }
                if self.r.chance(7, 8) {
                    let hdr = if exact { self.header(t) } else { None };
                    ops.push(Op::Respond { h, hdr });
                    look(self, &mut ops);
                    match self.r.below(4) {
                        0 => {}
                        1 => {
                            for _ in 0..self.r.range(1, 6) {
                                ops.push(Op::Next { h, q: self.queue(true) });
                                look(self, &mut ops);
                            }
                        }
                        _ => {
                            let qs = (0..8).map(|_| self.queue(true)).collect();
                            ops.push(Op::Drain { h, caps: vec![1], qs });
                            look(self, &mut ops);
                        }
                    }
                }
                if hangup {
                    ops.push(Op::Hangup { h });
                }
                ops.push(Op::Drop { h });
                ops.push(Op::Recv { h, nh: h + 1 });
                ops.push(Op::Recv { h, nh: h + 7 });
                h += 1;
                ops.push(Op::Crcs { h });
                ops.push(Op::Size { h });
            }
            // The returned reader is fully usable
            match if exact { self.r.below(4) } else { 9 } {
                9 => {}
                0 => ops.push(Op::Drain { h, caps: vec![any_cap(&mut self.r).max(5)], qs: vec![] }),
                1 => {
                    ops.push(Op::Seek { h, to: 0, via: "pin".into() });
                    ops.push(Op::Drain { h, caps: vec![4096], qs: vec![] });
                }
                2 => {
                    ops.push(Op::Clone { h, nh: 40 });
                    ops.push(self.seek(&spec, 40));
                    ops.push(Op::Drain { h: 40, caps: vec![300], qs: vec![] });
                    ops.push(Op::Drain { h, caps: vec![500], qs: vec![] });
                }
                _ => {
                    ops.push(Op::Stream { h });
                    ops.push(Op::Drain { h, caps: vec![1], qs: vec![] });
                }
            }
            ops.push(Op::Crcs { h });
            self.run(&spec, ops);
        }
    }
}

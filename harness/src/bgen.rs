//! Generates histories of archive descriptions.
use crate::bexec::*;
use crate::util::*;
use serde_json::Value;

const END: u64 = 98;

/// Names that something between the call and the file might take for others
pub const ODD_NAMES: &[&str] = &[
    "\u{feff}marked", "marked", "\u{feff}", "", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "\u{fffd}",
    " ", "  ", " led", "led", "trailed ", "trailed", "\tled", "trailed\n",
    ".", "..", "./x", "x", "x/.", "x/..", "x//y", "x/y",
    "/", "//", "/x", "//x", "x/", "x//", "../x", "../../x",
    "a", "A", "ä", "a\u{308}", "Ä", "ß", "ss", "SS",
    "x\u{0}", "\u{0}", "\u{0}x", "x\u{0}y", "x\u{1f}", "\u{7f}", "\u{80}", "\u{a0}",
    "c:\\x", "c:/x", "c:x", "\\x", "\\\\h\\x", "x\\y", "CON", "NUL.txt",
    "x.", "x..", "x.zip", ".x", "-x", "--", "~", "~x",
    "%2e", "%", "+", "&amp;", "<x>", "\"x\"", "'x'", "x;y",
    "\u{200e}x", "x\u{200d}", "\u{202e}x", "\u{301}", "ﬁ", "fi", "①", "1",
    "PK\u{3}\u{4}", "PK\u{1}\u{2}", "PK\u{5}\u{6}", "PK\u{6}\u{6}PK", "PK\u{7}\u{8}", "\r\n", "\r", "*",
];

fn overhead(nl: u64) -> u64 {
    58 + 24 + 74 + 2 * nl
}

pub struct BGen<'a> {
    pub out: &'a mut Out,
    pub r: Rng,
    pub thorough: bool,
    prefix: String,
    n: usize,
}

const KINDS: &[&str] = &["scripted", "vec", "static", "arc", "bytes", "cow"];

impl<'a> BGen<'a> {
    pub fn new(out: &'a mut Out, seed: u64, thorough: bool, prefix: &str) -> Self {
        BGen { out, r: Rng::new(seed ^ 0xB11D), thorough, prefix: prefix.into(), n: 0 }
    }

    fn num(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }

    fn run(&mut self, bops: Vec<BOp>) {
        self.run_kind(bops, "scripted");
    }

    fn run_kind(&mut self, bops: Vec<BOp>, kind: &str) {
        self.n += 1;
        let sc = BScenario { id: format!("{}-{}", self.prefix, self.n), bops, kind: kind.into() };
        run(self.out, &sc);
    }

    /// All the odd names, several at a time, in archives which also hold names that only nearly equal them
    fn odd_names(&mut self) {
        for (i, names) in ODD_NAMES.chunks(8).enumerate() {
            for kind in ["scripted", "vec"] {
                let mut ops = vec![BOp::New { h: 1 }];
                for (k, name) in names.iter().enumerate() {
                    let (size, seed) = (k as u64 % 3, k as u64);
                    ops.push(BOp::Add { h: 1, name: Name::S((*name).into()), size, seed, crc: self.crc(size, seed), set: vec![] });
                    if (k + i) % 3 == 0 {
                        // Again
                        ops.push(BOp::Add { h: 1, name: Name::S((*name).into()), size: 1, seed, crc: None, set: vec![] });
                    }
                }
                ops.push(BOp::List { h: 1 });
                ops.push(BOp::Build { h: 1, caps: vec![[1000, 37, 10_000][i % 3]] });
                self.run_kind(ops, kind);
            }
        }
    }

    fn name(&mut self, pool: u64) -> Name {
        let k = self.r.below(pool);
        Name::S(match self.r.below(13) {
            12 => format!("{}{}", self.r.pick(ODD_NAMES), k % 2),
            0 => format!("dir{k}/"),
            1 => format!("dir{k}/file"),
            2 => format!("jméno {k}"),
            3 => format!("名前{k}.txt"),
            4 => format!("🎉{k}"),
            5 if pool > 3 => String::new(),
            6 => "x".repeat((k % 5 * 63 + 1) as usize),
            7 => format!("a\\b:{k}*?\"<>|"),
            8 => format!("../{k}"),
            9 => format!("/abs{k}\u{0}nul\nnl"),
            _ => format!("n{k}"),
        })
    }

    fn size(&mut self) -> u64 {
        match self.r.below(16) {
            0 | 1 => 0,
            2 => 1,
            3 => *self.r.pick(&[255, 256, 257, 511, 512, 1000]),
            4 => *self.r.pick(&[8191, 8192, 8193]),
            _ => self.r.below(120),
        }
    }

    fn caps(&mut self) -> Vec<usize> {
        let n = self.r.range(1, 3);
        (0..n)
            .map(|_| match self.r.below(5) {
                0 => self.r.range(20, 120) as usize,
                1 => 8192,
                2 => *self.r.pick(&[29, 30, 31, 58, 98, 4096, 8191, 8193]),
                _ => self.r.range(120, 30_000) as usize,
            })
            .collect()
    }

    fn crc(&mut self, size: u64, seed: u64) -> Option<u32> {
        if self.r.chance(1, 3) { Some(crc32(&content(seed, size))) } else { None }
    }

    fn add(&mut self, h: usize, pool: u64) -> BOp {
        let (size, seed) = (self.size(), self.r.below(1 << 20));
        BOp::Add { h, name: self.name(pool), size, seed, crc: self.crc(size, seed), set: vec![] }
    }

    fn fields(&mut self) -> (i32, u32, u32, u32, u32, u32) {
        let mut f = (
            self.r.range(1980, 2107) as i32,
            self.r.range(1, 12) as u32,
            self.r.range(1, 28) as u32,
            self.r.below(24) as u32,
            self.r.below(60) as u32,
            self.r.below(60) as u32,
        );
        // Bounds
        for _ in 0..self.r.below(3) {
            match self.r.below(6) {
                0 => f.0 = *self.r.pick(&[1980, 2107, 1979, 2108, 0, -1, i32::MIN, i32::MAX, 1980 + 256, 1980 + 65536, 2043, 2044]),
                1 => f.1 = *self.r.pick(&[0, 1, 12, 13, 16, 17, 256 + 1, 65536 + 1, u32::MAX]),
                2 => f.2 = *self.r.pick(&[0, 1, 28, 29, 30, 31, 32, 33, 256 + 1, u32::MAX]),
                3 => f.3 = *self.r.pick(&[0, 23, 24, 25, 31, 32, 256, u32::MAX]),
                4 => f.4 = *self.r.pick(&[0, 59, 60, 61, 63, 64, 256, u32::MAX]),
                _ => f.5 = *self.r.pick(&[0, 1, 58, 59, 60, 61, 62, 64, 256, u32::MAX]),
            }
        }
        f
    }

    fn conv(&mut self) -> Conv {
        match self.r.below(7) {
            0 | 1 => Conv::Utc,
            2 => Conv::Fixed(*self.r.pick(&[0, 1, -1, 3600, -3600, 86_399, -86_399, 20_700, -34_200])),
            3 => {
                let at = (self.r.range(3652, 50_000) as i64, self.r.below(86_400) as i64);
                Conv::Switch { at, off: *self.r.pick(&[3600, -18_000, 0]), off2: *self.r.pick(&[7200, -14_400, 1800]) }
            }
            4 => {
                let f = self.fields();
                Conv::Const(f.0, f.1, f.2, f.3, f.4, f.5)
            }
            _ => Conv::Own(self.r.range(0, 172_000) as i32 - 86_000),
        }
    }

    fn secs(&mut self) -> i64 {
        const DOS_START: i64 = 315_532_800;
        const DOS_END: i64 = 4_354_819_200;
        match self.r.below(10) {
            0 => DOS_START + self.r.below(5) as i64 - 2 + *self.r.pick(&[0, 86_400, -86_400, 3600, -3600]),
            1 => DOS_END + self.r.below(5) as i64 - 2 + *self.r.pick(&[0, 86_400, -86_400, 3600, -3600]),
            2 => *self.r.pick(&[0, 1, -1, -2, i64::MAX, i64::MIN, i64::MAX / 2, i64::MIN / 2, 8_210_266_876_799, 8_210_266_876_800, -8_334_601_228_800, -8_334_601_228_801, 253_402_300_800, -62_135_596_801, 1 << 31, (1 << 31) - 1, 1 << 32, -(1 << 31)]),
            // Around turns of months and leap days
            3..=5 => {
                let y = self.r.range(1979, 2108) as i64;
                let days = (y - 1970) * 365 + (y - 1969) / 4 + *self.r.pick(&[0, 31, 58, 59, 60, 90, 120, 151, 243, 304, 334, 364, 365]);
                days * 86_400 + *self.r.pick(&[0, -1, 1, 86_399, 43_200])
            }
            _ => DOS_START + self.r.below((DOS_END - DOS_START) as u64) as i64,
        }
    }

    fn nanos(&mut self) -> u32 {
        *self.r.pick(&[0, 0, 1, 500_000_000, 999_999_999])
    }

    fn set_time(&mut self) -> Set {
        match self.r.below(9) {
            0 | 1 => {
                let f = self.fields();
                Set::Fields(f.0, f.1, f.2, f.3, f.4, f.5)
            }
            2 => {
                let f = self.fields();
                Set::FieldsD(f.0, f.1, f.2, f.3, f.4, f.5)
            }
            3 | 4 => {
                let f = self.fields();
                let y = if self.r.chance(1, 4) { *self.r.pick(&[-262_143, 262_142, -1, 0, 9999, 10_000, 1979, 2108]) } else { f.0 };
                let n = *self.r.pick(&[0, 1, 999_999_999, 1_000_000_000, 1_999_999_999]);
                let f = if n >= 1_000_000_000 { (f.0, f.1, f.2, f.3, f.4, 59) } else { f };
                if self.r.chance(1, 2) { Set::Chrono(y, f.1, f.2, f.3, f.4, f.5, n) } else { Set::ChronoD(y, f.1, f.2, f.3, f.4, f.5, n) }
            }
            5 if self.r.chance(1, 3) => Set::ChronoEnd(self.r.chance(1, 2), self.r.chance(1, 2)),
            5 | 6 => Set::Sys(self.secs(), self.nanos()),
            _ => Set::SysD(self.secs(), self.nanos()),
        }
    }

    fn set_attr(&mut self) -> Set {
        match self.r.below(10) {
            0 => Set::File,
            1 | 2 => Set::Dir,
            3 => Set::Link,
            4 | 5 => {
                let p = self.r.next() as u32;
                Set::Perm(*self.r.pick(&[p, p & 0o777, p & 0o7777, 0, 0o777, 0o1000, 0o4755, 0o100_644, u32::MAX, 0o644, 0o444]))
            }
            6 => Set::PermStd(*self.r.pick(&[0, 0o755, 0o4711, 0o2755, 0o1777, 0o600, 0o100_640, 0o040_700])),
            7 | 8 => Set::Ro(self.r.chance(1, 2)),
            _ => self.meta(),
        }
    }

    fn meta(&mut self) -> Set {
        let ty = *self.r.pick(&["file", "dir", "link"]);
        Set::Meta(ty.into(), *self.r.pick(&[0o644, 0o4755, 0o1777, 0o000, 0o2070, 0o444, 0o700, 0o555]), self.secs())
    }

    fn final_build(&mut self, h: usize) -> BOp {
        BOp::Build { h, caps: self.caps() }
    }

    pub fn c01(&mut self) {
        self.odd_names();
        for kind in KINDS {
            self.run_kind(vec![BOp::New { h: 1 }, BOp::Build { h: 1, caps: vec![100] }], kind);
        }
        for i in 0..self.num(1000, 6000) {
            let mut ops = vec![BOp::New { h: 1 }];
            for _ in 0..self.r.below(6) {
                ops.push(self.add(1, 50));
            }
            ops.push(BOp::List { h: 1 });
            ops.push(self.final_build(1));
            self.run_kind(ops, KINDS[i as usize % KINDS.len()]);
        }
        // Longest names, long data
        for (i, (l, size)) in [(65_535, 3), (65_534, 8200), (32_768, 0), (65_535, 65_536), (255, 65_535), (256, 65_537), (4096, 70_000)].into_iter().enumerate() {
            self.run_kind(
                vec![
                    BOp::New { h: 1 },
                    BOp::Add { h: 1, name: Name::L(1, l), size, seed: 3, crc: None, set: vec![] },
                    BOp::Add { h: 1, name: Name::L(2, l), size: 0, seed: 4, crc: None, set: vec![] },
                    BOp::Add { h: 1, name: Name::S("last".into()), size: 5, seed: 5, crc: None, set: vec![] },
                    BOp::Build { h: 1, caps: vec![[8192, 20_000, 100_000][i % 3]] },
                ],
                KINDS[i % KINDS.len()],
            );
        }
        // Beyond 4 GiB
        let big = [
            vec![1u64 << 32],
            vec![(1 << 32) - 1],
            vec![(1 << 32) - 2, 5],
            vec![(1 << 32) + 1, 0, 77],
            vec![(1 << 31) - 1, 1 << 31, 100],
            vec![100, 1 << 40, 3, 1 << 33],
            vec![(1 << 32) - 58 - 24 - 4, 1, 2],
            vec![1 << 62, 1 << 62, 1 << 62, 12],
            vec![u64::MAX - END - overhead(4)],
            // The start of the central directory, its end, and an entry around 2^32
            vec![(1 << 32) - 82 - 4, 0],
            vec![(1 << 32) - 82 - 82 - 8 - 1, 0],
            vec![(1 << 32) - 82 - 74 - 8, 0],
            vec![(1 << 32) - 1 - 82 - 4 - 78, 0],
        ];
        for sizes in big {
            let mut ops = vec![BOp::New { h: 1 }];
            for (i, size) in sizes.iter().enumerate() {
                let crc = if *size <= 70_000 { crc32(&content(i as u64, *size)) } else { 0xdead_0000 + i as u32 };
                ops.push(BOp::Add { h: 1, name: Name::S(format!("big{i}")), size: *size, seed: i as u64, crc: Some(crc), set: vec![] });
            }
            ops.push(BOp::List { h: 1 });
            ops.push(BOp::Build { h: 1, caps: vec![] });
            self.run(ops);
        }
        for _ in 0..self.num(40, 600) {
            let mut ops = vec![BOp::New { h: 1 }];
            for i in 0..self.r.range(1, 5) {
                let size = if self.r.chance(1, 2) { self.r.next() >> self.r.range(4, 60) } else { self.size() };
                let crc = if size <= 70_000 { crc32(&content(i, size)) } else { self.r.next() as u32 };
                ops.push(BOp::Add { h: 1, name: Name::S(format!("big{i}")), size, seed: i, crc: Some(crc), set: vec![] });
            }
            ops.push(BOp::Build { h: 1, caps: vec![] });
            self.run(ops);
        }
    }

    fn random_history(&mut self, len: u64, near_limit: bool, removals: bool) {
        let mut ops = vec![BOp::New { h: 1 }];
        let mut live = vec![1usize];
        let mut next = 2;
        let mut removed = false;
        if near_limit {
            // Fill up so that small entries decide
            let left = self.r.below(1200);
            ops.push(BOp::Add { h: 1, name: Name::S("filler".into()), size: u64::MAX - END - overhead(6) - left, seed: 1, crc: Some(7), set: vec![] });
        }
        for _ in 0..len {
            let h = *self.r.pick(&live);
            match self.r.below(14) {
                0..=5 => {
                    let mut a = self.add(h, 6);
                    if let BOp::Add { size, crc, name, .. } = &mut a {
                        if self.r.chance(1, 12) {
                            *name = Name::L(self.r.below(3) as u32, *self.r.pick(&[65_535, 65_536, 65_537, 70_000]));
                        }
                        if near_limit && self.r.chance(1, 3) {
                            *size = *self.r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - END, 1 << 63, u64::MAX - END - 160, 0]);
                            *crc = Some(9);
                            if *size == 0 {
                                *crc = None;
                            }
                        }
                    }
                    ops.push(a);
                }
                6 | 7 => ops.push(BOp::Set { h, i: self.r.below(5) as usize, set: self.set_attr() }),
                8 => ops.push(BOp::Set { h, i: self.r.below(5) as usize, set: self.set_time() }),
                9 | 10 if live.len() < 3 => {
                    ops.push(BOp::Clone { h, nh: next });
                    live.push(next);
                    next += 1;
                }
                11 => ops.push(BOp::List { h }),
                12 if removals => {
                    removed = true;
                    ops.push(BOp::Remove { h, how: (*self.r.pick(&["clear", "pop", "swap", "shift", "reverse"])).into(), i: self.r.below(4) as usize });
                }
                13 => {
                    let conv = self.conv();
                    ops.push(BOp::Conv { h, conv });
                }
                _ => {}
            }
            let _ = removed;
        }
        for h in live {
            ops.push(BOp::List { h });
            ops.push(if near_limit { BOp::Build { h, caps: vec![] } } else { self.final_build(h) });
        }
        self.run(ops);
    }

    pub fn c02(&mut self) {
        for i in 0..self.num(500, 6000) {
            self.random_history(4 + i % 12, i % 5 == 4, false);
        }
        // Removal through get_entries_mut()
        for i in 0..self.num(30, 300) {
            self.random_history(6 + i % 8, false, true);
        }
        self.run(vec![
            BOp::New { h: 1 },
            BOp::Add { h: 1, name: Name::S("a".into()), size: 0, seed: 1, crc: None, set: vec![] },
            BOp::Remove { h: 1, how: "clear".into(), i: 0 },
            BOp::Build { h: 1, caps: vec![100] },
        ]);
    }

    pub fn c09(&mut self) {
        self.odd_names();
        // Exactly at the limits: of the name, and of the size with every number of remaining bytes
        for l in [0usize, 1, 255, 256, 65_534, 65_535, 65_536, 65_537, 100_000, 131_071, 131_072, 131_073] {
            self.run(vec![
                BOp::New { h: 1 },
                BOp::Add { h: 1, name: Name::S("before".into()), size: 3, seed: 1, crc: None, set: vec![] },
                BOp::Add { h: 1, name: Name::L(7, l), size: 2, seed: 2, crc: None, set: vec![] },
                BOp::Add { h: 1, name: Name::L(7, l), size: 2, seed: 2, crc: None, set: vec![] },
                BOp::Add { h: 1, name: Name::S("after".into()), size: 3, seed: 3, crc: None, set: vec![] },
                BOp::List { h: 1 },
                BOp::Build { h: 1, caps: vec![50_000] },
            ]);
        }
        // Multi byte characters: the limit is in bytes
        for (n, tail) in [(32_767, ""), (32_767, "a"), (32_768, ""), (21_845, "")] {
            let ch = if n == 21_845 { "€" } else { "é" };
            self.run(vec![
                BOp::New { h: 1 },
                BOp::Add { h: 1, name: Name::S(ch.repeat(n) + tail), size: 2, seed: 2, crc: None, set: vec![] },
                BOp::List { h: 1 },
                BOp::Build { h: 1, caps: vec![50_000] },
            ]);
        }
        for nl in [1u64, 5] {
            for d in -3i64..=3 {
                for second in [0u64, 1, 200] {
                    // One or two entries which together just fit, or not
                    let total = (u64::MAX as i128 + i128::from(d)) as u128;
                    let first = if second == 0 { None } else { Some(second) };
                    let mut used = u128::from(END);
                    let mut ops = vec![BOp::New { h: 1 }];
                    if let Some(s) = first {
                        ops.push(BOp::Add { h: 1, name: Name::L(1, 3), size: s, seed: 1, crc: Some(crc32(&content(1, s))), set: vec![] });
                        used += u128::from(overhead(3) + s);
                    }
                    let size = (total - used - u128::from(overhead(nl))) as u64;
                    ops.push(BOp::Add { h: 1, name: Name::L(2, nl as usize), size, seed: 2, crc: Some(5), set: vec![] });
                    ops.push(BOp::Add { h: 1, name: Name::L(3, 3), size: 0, seed: 2, crc: None, set: vec![] });
                    ops.push(BOp::Add { h: 1, name: Name::L(2, nl as usize), size: 0, seed: 2, crc: None, set: vec![] });
                    ops.push(BOp::List { h: 1 });
                    ops.push(BOp::Build { h: 1, caps: vec![] });
                    self.run(ops);
                }
            }
        }
        for i in 0..self.num(400, 5000) {
            self.random_history(6 + i % 16, i % 2 == 1, false);
        }
    }

    pub fn c10(&mut self) {
        // Every value of every field, and its neighbours
        let mut all: Vec<Set> = Vec::new();
        for y in 1978..=2110 {
            all.push(Set::Fields(y, 3, 4, 5, 6, 7));
        }
        for m in 0..=17 {
            all.push(Set::Fields(2000, m, 4, 5, 6, 7));
        }
        for d in 0..=35 {
            all.push(Set::Fields(2000, 1, d, 5, 6, 7));
        }
        for x in 0..=70 {
            all.push(Set::Fields(2001, 3, 4, x, 6, 7));
            all.push(Set::Fields(2001, 3, 4, 5, x, 7));
            all.push(Set::Fields(2001, 3, 4, 5, 6, x));
            all.push(Set::FieldsD(2001, 3, 4, 5, x, x));
        }
        for n in 0..600i64 {
            // All months and both kinds of years, by time zone
            all.push(Set::Sys(315_532_800 + n * 86_400 * 7 + n * 1000, 0));
        }
        for chunk in all.chunks(10) {
            let mut ops = vec![BOp::New { h: 1 }, BOp::Conv { h: 1, conv: Conv::Utc }];
            for (i, s) in chunk.iter().enumerate() {
                ops.push(BOp::Add { h: 1, name: Name::S(format!("{i}")), size: 0, seed: 0, crc: None, set: vec![s.clone()] });
            }
            ops.push(BOp::Build { h: 1, caps: vec![8192] });
            self.run(ops);
        }
        for _ in 0..self.num(900, 12_000) {
            let mut ops = vec![BOp::New { h: 1 }];
            for k in 0..self.r.range(1, 4) {
                if self.r.chance(2, 3) {
                    let conv = self.conv();
                    ops.push(BOp::Conv { h: 1, conv });
                }
                let mut set = Vec::new();
                for _ in 0..self.r.below(4) {
                    set.push(if self.r.chance(1, 8) { self.meta() } else { self.set_time() });
                }
                ops.push(BOp::Add { h: 1, name: Name::S(format!("{k}")), size: k % 2, seed: 0, crc: None, set });
                if self.r.chance(1, 3) {
                    ops.push(BOp::Set { h: 1, i: self.r.below(k + 1) as usize, set: self.set_time() });
                }
            }
            if self.r.chance(1, 5) {
                ops.push(BOp::Clone { h: 1, nh: 2 });
                ops.push(BOp::Set { h: 1, i: 0, set: self.set_time() });
                ops.push(BOp::Set { h: 2, i: 0, set: self.set_time() });
                ops.push(self.final_build(2));
            }
            ops.push(self.final_build(1));
            self.run(ops);
        }
    }

    pub fn c11(&mut self) {
        let settings = [
            Set::File,
            Set::Dir,
            Set::Link,
            Set::Perm(0o750),
            Set::Perm(0o7777),
            Set::Perm(0),
            Set::PermStd(0o100_640),
            Set::Ro(true),
            Set::Ro(false),
            Set::Meta("file".into(), 0o4711, 1_000_000_000),
            Set::Meta("dir".into(), 0o1555, 1_000_000_000),
            Set::Meta("link".into(), 0o777, 1_000_000_000),
        ];
        // All sequences of up to two, all of three in the thorough tier
        let mut seqs: Vec<Vec<Set>> = vec![vec![]];
        for a in &settings {
            seqs.push(vec![a.clone()]);
            for b in &settings {
                seqs.push(vec![a.clone(), b.clone()]);
                for c in &settings {
                    if self.thorough || self.r.chance(1, 4) {
                        seqs.push(vec![a.clone(), b.clone(), c.clone()]);
                    }
                }
            }
        }
        for p in 0..512 {
            seqs.push(vec![Set::Perm(p)]);
        }
        for chunk in seqs.chunks(8) {
            let mut ops = vec![BOp::New { h: 1 }];
            for (i, s) in chunk.iter().enumerate() {
                ops.push(BOp::Add { h: 1, name: Name::S(format!("{i}/")), size: 0, seed: 0, crc: None, set: s.clone() });
            }
            ops.push(BOp::Build { h: 1, caps: vec![8192] });
            self.run(ops);
        }
        for _ in 0..self.num(400, 6000) {
            let mut ops = vec![BOp::New { h: 1 }];
            let n = self.r.range(1, 4);
            for k in 0..n {
                let mut set = Vec::new();
                for _ in 0..self.r.below(7) {
                    set.push(self.set_attr());
                }
                ops.push(BOp::Add { h: 1, name: Name::S(format!("{k}")), size: k % 2, seed: 0, crc: None, set });
            }
            for _ in 0..self.r.below(4) {
                ops.push(BOp::Set { h: 1, i: self.r.below(n) as usize, set: self.set_attr() });
            }
            ops.push(self.final_build(1));
            self.run(ops);
        }
    }

    /// Histories generated from the specification. In the end all that is left is listed and built.
    pub fn behaviours(&mut self, path: &str) {
        let limbs = |v: &Value| v.as_array().unwrap().iter().rev().fold(0u64, |a, x| a << 16 | x.as_u64().unwrap());
        let num = |v: &Value| v.as_i64().unwrap_or_else(|| panic!("HARNESS: no number: {v}"));
        for (count, line) in std::io::BufRead::lines(std::io::BufReader::new(std::fs::File::open(path).unwrap())).enumerate() {
            let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let mut ops = vec![BOp::New { h: 1 }];
            let mut live = std::collections::BTreeMap::from([(1usize, false)]);
            let (mut giant, mut long) = (false, false);
            let seed = |size: u64| 5 * count as u64 + size % 3;
            for o in v["ops"].as_array().unwrap() {
                let h = num(&o["h"]) as usize;
                match o["op"].as_str().unwrap() {
                    "add" => {
                        let name = crate::util::unhex(o["nx"].as_str().unwrap());
                        let (nl, size) = (num(&o["nl"]) as usize, limbs(&o["size"]));
                        let name = if nl == name.len() { Name::S(String::from_utf8(name).unwrap()) } else { Name::L(u32::from(name[0]), nl) };
                        *live.get_mut(&h).unwrap() |= size > 1 << 20;
                        giant |= size > 1 << 20;
                        long |= nl > 60_000;
                        // Checksums of giants cannot be calculated
                        let crc = (size > 1 << 20).then_some(0x1234_5678);
                        ops.push(BOp::Add { h, name, size, seed: seed(size), crc, set: vec![] });
                    }
                    "set" => {
                        let s = &o["set"];
                        let f: Vec<u32> = s["f"].as_array().map_or(vec![], |f| f.iter().map(|x| num(x) as u32).collect());
                        let secs = || num(&s["d"]) * 86_400 + num(&s["s"]);
                        let set = match s["what"].as_str().unwrap() {
                            "fields" => Set::Fields(f[0] as i32, f[1], f[2], f[3], f[4], f[5]),
                            "fieldsd" => Set::FieldsD(f[0] as i32, f[1], f[2], f[3], f[4], f[5]),
                            "chrono" => Set::Chrono(f[0] as i32, f[1], f[2], f[3], f[4], f[5], 0),
                            "chronod" => Set::ChronoD(f[0] as i32, f[1], f[2], f[3], f[4], f[5], 0),
                            "sys" => Set::Sys(secs(), 0),
                            "sysd" => Set::SysD(secs(), 0),
                            "file" => Set::File,
                            "dir" => Set::Dir,
                            "link" => Set::Link,
                            "perm" => Set::Perm(num(&s["bits"]) as u32),
                            "permstd" => Set::PermStd(num(&s["bits"]) as u32),
                            "ro" => Set::Ro(s["ro"].as_bool().unwrap()),
                            "crc" => {
                                // The right one for this content
                                let size = limbs(&s["size"]);
                                Set::Crc(crc32(&content(seed(size), size)))
                            },
                            "meta" => Set::Meta(s["ty"].as_str().unwrap().into(), num(&s["bits"]) as u32, secs()),
                            x => panic!("HARNESS: {x}"),
                        };
                        ops.push(BOp::Set { h, i: num(&o["i"]) as usize, set });
                    }
                    "conv" => {
                        let c = &o["conv"];
                        let conv = if c["k"] == "utc" { Conv::Utc } else { Conv::Fixed(num(&c["off"]) as i32) };
                        ops.push(BOp::Conv { h, conv });
                    }
                    "clone" => {
                        let nh = num(&o["nh"]) as usize;
                        live.insert(nh, live[&h]);
                        ops.push(BOp::Clone { h, nh });
                    }
                    "remove" => ops.push(BOp::Remove { h, how: o["how"].as_str().unwrap().into(), i: 0 }),
                    "list" => ops.push(BOp::List { h }),
                    "build" => {
                        live.remove(&h);
                        ops.push(BOp::Build { h, caps: vec![100_000] });
                    }
                    x => panic!("HARNESS: {x}"),
                }
            }
            let last = v["ops"].as_array().unwrap().last();
            let shown = last.is_some_and(|o| o["op"] == "add" && num(&o["nl"]) > 60_000);
            if long && !shown && count % 8 != 0 {
                continue;
            }
            for (h, big) in live {
                // Many long names take long to validate
                if long && count % 16 != 0 {
                    continue;
                }
                ops.push(BOp::List { h });
                ops.push(BOp::Build { h, caps: if big { vec![] } else { vec![100_000] } });
            }
            self.run_kind(ops, if giant { "scripted" } else { KINDS[count % KINDS.len()] });
            self.out.add("replayed behaviours", 1);
        }
    }

    pub fn c12(&mut self) {
        for i in 0..self.num(300, 4000) {
            // Copies early and often
            let mut ops = vec![BOp::New { h: 1 }];
            let mut live = vec![1usize];
            let mut next = 2;
            for _ in 0..8 + i % 10 {
                let h = *self.r.pick(&live);
                match self.r.below(8) {
                    0 | 1 => {
                        let mut a = self.add(h, 5);
                        if let BOp::Add { set, .. } = &mut a {
                            set.push(self.set_attr());
                            set.push(self.set_time());
                        }
                        ops.push(a);
                    }
                    2 | 3 if live.len() < 4 => {
                        ops.push(BOp::Clone { h, nh: next });
                        live.push(next);
                        next += 1;
                    }
                    4 => {
                        let conv = self.conv();
                        ops.push(BOp::Conv { h, conv });
                    }
                    5 => ops.push(BOp::Set { h, i: self.r.below(4) as usize, set: self.set_attr() }),
                    6 => ops.push(BOp::Set { h, i: self.r.below(4) as usize, set: self.set_time() }),
                    _ if live.len() > 1 && self.r.chance(1, 3) => {
                        ops.push(self.final_build(h));
                        live.retain(|x| *x != h);
                    }
                    _ => ops.push(BOp::List { h }),
                }
            }
            for h in live {
                ops.push(self.final_build(h));
            }
            self.run(ops);
        }
    }
}

/// Archives of very many entries
pub fn bulk(out: &mut Out, n: usize) {
    let desc = serde_json::json!({"id": format!("bulk-{n}"), "bulk": n}).to_string();
    crate::set_current(&desc);
    let run = || {
        let mut b = zippity::Builder::<Vec<u8>>::new();
        for i in 0..n {
            crate::heartbeat();
            let data: Vec<u8> = (1..=i % 4).map(|j| ((i + 7 * j) % 256) as u8).collect();
            if b.add_entry(format!("e{i:06}"), data).is_err() {
                return serde_json::json!({"rd": "add", "len": limbs(0), "size": limbs(1), "bsize": limbs(0), "file": []});
            }
        }
        let bsize = b.size();
        let mut r = Box::pin(b.build());
        let size = r.size();
        let (rd, bytes) = read_all(r.as_mut(), &[60_000, 8192, 100_000]);
        serde_json::json!({"rd": rd, "len": limbs(bytes.len() as u64), "size": limbs(size), "bsize": limbs(bsize),
            "file": [{"o": limbs(0), "x": hex(&bytes)}]})
    };
    let mut t = std::panic::catch_unwind(run)
        .unwrap_or_else(|_| serde_json::json!({"rd": "panic", "len": limbs(0), "size": limbs(1), "bsize": limbs(0), "file": []}));
    t["id"] = serde_json::json!(format!("bulk-{n}"));
    t["n"] = serde_json::json!(n);
    out.add("entries", n as u64);
    out.spec(&format!("bulk-{n}"), &desc);
    out.trace_weight(&t, 2 * n + 3);
}

/// An archive with a central directory of more than 4 GiB, of which the ends and some records are read
pub fn vast(out: &mut Out, n: usize, nl: usize) {
    let free = std::fs::read_to_string("/proc/meminfo").ok().and_then(|m| {
        m.lines().find_map(|l| l.strip_prefix("MemAvailable:")?.trim().strip_suffix("kB")?.trim().parse::<u64>().ok())
    });
    // Names take that much, and may be held twice
    if free.is_some_and(|kb| kb * 1024 < 3 * (n * nl) as u64) {
        eprintln!("not enough memory for a vast archive");
        out.add("not possible here", 1);
        return;
    }
    let desc = serde_json::json!({"id": format!("vast-{n}"), "vast": [n, nl]}).to_string();
    crate::set_current(&desc);
    let picks = [0, 1, n / 2, 65_535, 65_536, n - 2, n - 1];
    let failed = |rd: &str| serde_json::json!({"rd": rd, "size": limbs(0), "bsize": limbs(1), "file": []});
    let run = || {
        let mut b = zippity::Builder::<&'static [u8]>::new();
        let x = "x".repeat(nl - 6);
        for i in 0..n {
            crate::heartbeat();
            if b.add_entry(format!("{i:06}{x}"), &[][..]).is_err() {
                return failed("add");
            }
        }
        let bsize = b.size();
        let mut r = Box::pin(b.build());
        let size = r.size();
        let (n, nl) = (n as u64, nl as u64);
        let mut places: Vec<(u64, u64)> = picks.iter().map(|i| (*i as u64 * (82 + nl), 82 + nl)).collect();
        places.extend(picks.iter().map(|i| (n * (82 + nl) + *i as u64 * (74 + nl), 74 + nl)));
        places.push((n * (156 + 2 * nl), 98));
        let (rd, pieces) = read_pieces(r.as_mut(), &places);
        let file: Vec<_> = pieces.iter().map(|(o, x)| serde_json::json!({"o": limbs(*o), "x": hex(x)})).collect();
        serde_json::json!({"rd": rd, "size": limbs(size), "bsize": limbs(bsize), "file": file})
    };
    let mut t = std::panic::catch_unwind(run).unwrap_or_else(|_| failed("panic"));
    t["id"] = serde_json::json!(format!("vast-{n}"));
    t["n"] = serde_json::json!(n);
    t["nl"] = serde_json::json!(nl);
    t["picks"] = serde_json::json!(picks);
    out.add("entries", n as u64);
    out.spec(&format!("vast-{n}"), &desc);
    out.trace_weight(&t, picks.len() + 1);
}

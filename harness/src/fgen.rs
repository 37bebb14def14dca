//! Generates histories of archives made from file systems.
use crate::bexec::Conv;
use crate::fexec::*;
use crate::util::*;

pub struct FGen<'a> {
    out: &'a mut Out,
    r: Rng,
    thorough: bool,
    user: bool,
    prefix: String,
    n: usize,
}

const COMPS: &[&str] = &[
    "a", "b", "c.txt", "dir", "x y", " lead", "trail ", "...", "..a", ".hidden", "-rf", "~", "jméno", "名前", "🎉", "e\u{301}", "a\\b", "C:", "nul\u{1}",
    "new\nline", "*?", "\"q\"", "%2f", "con", "A", "UPPER", "tab\t", "\u{202e}rtl", "{}",
];
/// Names that tools often treat specially
const FAMILIAR: &[&str] = &[
    ".git", ".gitignore", ".svn", ".hg", ".DS_Store", "Thumbs.db", "desktop.ini", "__MACOSX", "._x", "lost+found", "node_modules", "target", "core", "a.out",
    "x~", "#x#", ".#x", ".x.swp", "x.tmp", "x.bak", "x.orig", "x.part", "x.lock", ".nfs0001", ".Trash-0", ".cache", "x.o", "x.pyc", "__pycache__", "x.zip", "x.log",
    "NUL", "CON.txt", "aux", "x.", "x..", "x:y", "x?", "x|y", "x.lnk", ".zippity", "mimetype", "META-INF", "@", "$x", "!x", "[x]", "{x}", "^x", "x;y", "x,y", "=", "+", "%20", "&amp;",
    "0", "00", "\u{feff}x", "x\u{a0}", "\u{200b}", "x\r", "x\u{7f}", ".\u{301}", "no-extension.", "proc", "dev", "sys", "tmp",
];
/// Not UTF-8
const ODD: &[&str] = &["bad\u{F7FF}", "\u{F7C3}(", "\u{F7ED}\u{F7A0}\u{F780}", "x\u{F7F0}\u{F79F}\u{F798}", "\u{F7E2}\u{F782}y"];
const MODES: &[u32] = &[0o644, 0o755, 0o600, 0o700, 0o777, 0o000, 0o444, 0o4755, 0o2644, 0o1777, 0o123, 0o501, 0o611, 0o640];
const SPELLS: &[&str] = &["{}/@", "{}/@/", "{}//@", "{}/./@", "@", "./@", "@/", "@/.", "{}/@//.", "{}/@/./", ".//@"];

impl<'a> FGen<'a> {
    pub fn new(out: &'a mut Out, seed: u64, thorough: bool, prefix: &str) -> Self {
        let user = can_be_user();
        FGen { out, r: Rng::new(seed ^ 0xF5), thorough, user, prefix: prefix.into(), n: 0 }
    }

    fn run(&mut self, fops: Vec<FOp>) {
        self.n += 1;
        let sc = FScenario { id: format!("{}-{}", self.prefix, self.n), fops, shm: false };
        run(self.out, &sc);
    }

    /// Histories of the model of file systems
    pub fn behaviours(&mut self, path: &str) {
        for line in std::io::BufRead::lines(std::io::BufReader::new(std::fs::File::open(path).unwrap())) {
            let mut sc: FScenario = serde_json::from_str(&line.unwrap()).unwrap();
            if !matches!(sc.fops.last(), Some(FOp::Build { .. })) {
                sc.fops.push(FOp::Build { h: 1, caps: vec![50], seed: self.r.next() >> 1, user: false });
            }
            self.run(sc.fops);
            self.out.add("replayed behaviours", 1);
        }
    }

    fn num(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }

    fn time(&mut self) -> Option<(i64, u32)> {
        let r = &mut self.r;
        let n = if r.chance(1, 2) { 0 } else { r.below(1_000_000_000) as u32 };
        match r.below(8) {
            0 => None,
            1 => Some((315_532_800 + r.range(0, 4) as i64 - 2, n)),    // 1980
            2 => Some((-(r.below(3_000_000_000) as i64) - 1, n)),
            3 => Some((4_354_819_200 + r.range(0, 4) as i64 - 2, n)),  // 2108
            4 => Some((r.below(3) as i64, n)),
            _ => Some((315_532_800 + r.below(4_039_286_400) as i64, n)),
        }
    }

    fn mode(&mut self) -> Option<u32> {
        if self.r.chance(1, 5) { None } else { Some(*self.r.pick(MODES)) }
    }

    fn size(&mut self) -> u64 {
        match self.r.below(10) {
            0..=2 => 0,
            3 => 1,
            4 => *self.r.pick(&[8191, 8192, 8193, 16_384]),
            _ => self.r.range(1, 80),
        }
    }

    fn comp(&mut self, odd: bool) -> String {
        if odd && self.r.chance(1, 12) {
            return self.r.pick(ODD).to_string();
        }
        match self.r.below(12) {
            0 => "n".repeat(255),
            1 => format!("f{}", self.r.below(100)),
            _ => self.r.pick(COMPS).to_string(),
        }
    }

    /// Objects below `root`, which is made too
    fn tree(&mut self, root: &str, max: u64, odd: bool) -> Vec<FOp> {
        let mut ops = vec![FOp::Mk { p: root.into(), k: Kind::Dir, mode: if self.r.chance(1, 3) { self.mode() } else { None }, time: self.time() }];
        let mut dirs = vec![root.to_string()];
        let mut all: Vec<String> = vec![root.to_string()];
        let mut kinds = std::collections::BTreeMap::new();
        for _ in 0..self.r.below(max) {
            let d = self.r.pick(&dirs).clone();
            let p = format!("{d}/{}", self.comp(odd));
            // The longest paths stay well below the limit
            if all.contains(&p) || p.len() > 2000 {
                continue;
            }
            let k = match self.r.below(20) {
                0..=5 => {
                    dirs.push(p.clone());
                    Kind::Dir
                }
                6..=8 => {
                    let to = self.r.pick(&all).clone();
                    match self.r.below(6) {
                        0 => Kind::Link("nowhere/at all".into(), "nowhere".into()),
                        1 => Kind::Link(p.rsplit('/').next().unwrap().into(), p.clone()), // to itself
                        2 => Kind::Link("..".into(), d.rsplit_once('/').map_or("", |x| x.0).into()),
                        3 => Kind::Link("l\u{F7FE}\u{F7FF}".into(), format!("{d}/l\u{F7FE}\u{F7FF}")),
                        _ => Kind::Link(format!("{}{to}", "../".repeat(d.matches('/').count() + 1)), to),
                    }
                }
                9 if odd => {
                    if self.r.chance(1, 2) { Kind::Pipe } else { Kind::Socket }
                }
                _ => Kind::File(self.size(), self.r.below(1000)),
            };
            kinds.insert(p.clone(), k.clone());
            all.push(p.clone());
            let (mode, time) = (self.mode(), self.time());
            ops.push(FOp::Mk { p, k, mode, time });
        }
        ops
    }

    fn prefix(&mut self) -> Option<String> {
        Some(match self.r.below(12) {
            0..=3 => return None,
            4 => "a".into(),
            5 => "pre/fix".into(),
            6 => "//x//".into(),
            7 => "a/./b/".into(),
            8 => "předpona 🎉".into(),
            9 => "..".into(),
            10 => "p".repeat(300),
            _ => format!("p{}/", self.r.below(9)),
        })
    }

    fn spell(&mut self, root: &str) -> String {
        let s = if self.r.chance(1, 2) { "{}/@" } else { *self.r.pick(SPELLS) };
        s.replace('@', root)
    }

    fn conv(&mut self, ops: &mut Vec<FOp>, h: usize) {
        match self.r.below(4) {
            0 => {}
            1 => ops.push(FOp::Conv { h, conv: Conv::Fixed(self.r.below(100_000) as i32 % 86_399 - 43_200) }),
            2 => ops.push(FOp::Conv { h, conv: Conv::Own(self.r.below(7200) as i32) }),
            _ => ops.push(FOp::Conv { h, conv: Conv::Utc }),
        }
    }

    fn build(&mut self, h: usize) -> FOp {
        let r = &mut self.r;
        let caps = match r.below(5) {
            0 => vec![8192],
            1 => vec![r.range(1, 100) as usize],
            2 => vec![7, 1000, 1],
            3 => vec![65_536],
            _ => vec![r.range(20, 200) as usize, r.range(100, 9000) as usize],
        };
        FOp::Build { h, caps, seed: r.next() >> 1, user: false }
    }

    pub fn c16(&mut self) {
        self.c16_fixed();
        for i in 0..self.num(150, 2500) {
            let odd = i % 3 == 0;
            let max = if i % 10 == 0 { 40 } else { 14 };
            let mut ops = self.tree("root", max, odd);
            if self.r.chance(1, 3) {
                // Something outside of it
                ops.push(FOp::Mk { p: "outside".into(), k: Kind::Dir, mode: None, time: None });
                ops.push(FOp::Mk { p: "outside/file".into(), k: Kind::File(9, 9), mode: None, time: None });
                ops.push(FOp::Mk { p: "root/out-link".into(), k: Kind::Link("../outside".into(), "outside".into()), mode: None, time: None });
            }
            ops.push(FOp::New { h: 1 });
            self.conv(&mut ops, 1);
            if self.r.chance(1, 4) {
                // Present before
                let p = ops.iter().filter_map(|o| match o {
                    FOp::Mk { p, .. } => Some(p.clone()),
                    _ => None,
                }).last().unwrap();
                ops.push(FOp::Md { slot: 1, p: p.clone(), follow: false });
                let name = if self.r.chance(1, 2) { "unrelated".to_string() } else { p.trim_start_matches("root/").to_string() };
                if !name.chars().any(|c| (0xF700..=0xF7FF).contains(&(c as u32))) {
                    ops.push(FOp::AddOne { h: 1, slot: 1, p, name });
                }
            }
            let user = self.user && self.r.chance(1, 3);
            let spell = self.spell("root");
            let pre = self.prefix();
            ops.push(FOp::AddRec { h: 1, root: "root".into(), spell, pre, user });
            if self.r.chance(1, 5) {
                // Again, or into a copy
                let pre = self.prefix();
                let spell = self.spell("root");
                if self.r.chance(1, 2) {
                    ops.push(FOp::Clone { h: 1, nh: 2 });
                    ops.push(FOp::AddRec { h: 2, root: "root".into(), spell, pre, user: false });
                    ops.push(self.build(2));
                } else {
                    ops.push(FOp::AddRec { h: 1, root: "root".into(), spell, pre, user: false });
                }
            }
            ops.push(self.build(1));
            self.run(ops);
        }
    }

    fn mk(p: &str, k: Kind) -> FOp {
        FOp::Mk { p: p.into(), k, mode: None, time: Some((1_000_000_000, 0)) }
    }

    fn rec(h: usize, root: &str, spell: &str, pre: Option<&str>, user: bool) -> FOp {
        FOp::AddRec { h, root: root.into(), spell: spell.into(), pre: pre.map(|p| p.into()), user }
    }

    /// Particular cases
    fn c16_fixed(&mut self) {
        let mk = Self::mk;
        let rec = Self::rec;
        let small = || vec![mk("root", Kind::Dir), mk("root/d", Kind::Dir), mk("root/d/f", Kind::File(20, 1)), mk("root/g", Kind::File(0, 0)), mk("root/e", Kind::Dir)];
        // What is not a directory
        for (root, spell) in [("root/g", "{}/root/g"), ("root/l", "{}/root/l"), ("root/none", "{}/root/none"), ("root/p", "{}/root/p"), ("root/dangling", "{}/root/dangling")] {
            for pre in [None, Some("x")] {
                let mut ops = small();
                ops.push(mk("root/l", Kind::Link("d".into(), "root/d".into())));
                ops.push(mk("root/dangling", Kind::Link("nope".into(), "root/nope".into())));
                ops.push(mk("root/p", Kind::Pipe));
                ops.extend([FOp::New { h: 1 }, rec(1, root, spell, pre, false), rec(1, "root/d", "{}/root/d", pre, false), self.build(1)]);
                self.run(ops);
            }
        }
        // A link to a directory with a final slash names the directory itself
        let mut ops = small();
        ops.push(mk("l", Kind::Link("root".into(), "root".into())));
        ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/l/", None, false), self.build(1)]);
        self.run(ops);
        // Ways of writing it
        for spell in SPELLS.iter().map(|s| s.replace('@', "root")).chain(["{}/root/d/..".into(), "root/../root".into(), "root/d/../e/..".into(), "./././root".into()]) {
            for pre in [None, Some("p")] {
                let mut ops = small();
                ops.extend([FOp::New { h: 1 }, rec(1, "root", &spell, pre, false), self.build(1)]);
                self.run(ops);
            }
        }
        // The scratch directory itself
        for spell in [".", "./", "{}", "{}/", "./.", "root/.."] {
            let mut ops = small();
            ops.extend([FOp::New { h: 1 }, rec(1, "", spell, Some("whole"), false), self.build(1)]);
            self.run(ops);
        }
        // Names that may seem special, as files, directories, and links
        for names in FAMILIAR.chunks(9) {
            let mut ops = vec![mk("root", Kind::Dir)];
            for (i, n) in names.iter().enumerate() {
                let (file, dir, link) = (format!("root/{n}"), format!("root/sub{i}/{n}"), format!("root/sub{i}/to"));
                ops.extend([mk(&file, Kind::File(i as u64 % 3, 4)), mk(&format!("root/sub{i}"), Kind::Dir), mk(&dir, Kind::Dir)]);
                ops.extend([mk(&format!("{dir}/f"), Kind::File(1, 5)), mk(&link, Kind::Link((*n).into(), dir.clone()))]);
                ops.push(mk(&format!("{dir}/{n}"), Kind::Link("f".into(), format!("{dir}/f"))));
            }
            ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", None, false), self.build(1)]);
            self.run(ops);
        }
        // Names that are too long only because of the prefix, below and above the limit
        for n in [65_529usize, 65_530, 65_531, 65_532, 65_533, 65_534, 65_535, 65_536, 70_000] {
            let mut ops = small();
            ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", Some(&"x".repeat(n)), false), rec(1, "root/d", "root/d", None, false), self.build(1)]);
            self.run(ops);
        }
        // Names that are taken
        for (taken, pre) in [("d/f", None), ("e/", None), ("p/e", Some("p")), ("p/", Some("p")), ("p/d/", Some("/p/")), ("g", None), ("P/G", Some("p"))] {
            let mut ops = small();
            ops.push(mk("other", if taken.ends_with('/') { Kind::Dir } else { Kind::File(3, 3) }));
            ops.extend([
                FOp::New { h: 1 },
                FOp::Md { slot: 1, p: "other".into(), follow: false },
                FOp::AddOne { h: 1, slot: 1, p: "other".into(), name: taken.into() },
                rec(1, "root", "{}/root", pre, false),
                self.build(1),
            ]);
            self.run(ops);
        }
        // Different names that become the same text
        let mut ops = vec![mk("root", Kind::Dir)];
        for c in ["\u{F7FF}", "\u{F7FE}"] {
            ops.push(mk(&format!("root/x{c}"), Kind::File(5, 5)));
        }
        ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", None, false)]);
        self.run(ops);
        // Twice, under different prefixes and under none
        let mut ops = small();
        ops.extend([FOp::New { h: 1 }, FOp::Conv { h: 1, conv: Conv::Utc }, rec(1, "root", "{}/root", None, false), rec(1, "root", "{}/root", Some("again"), false)]);
        ops.extend([rec(1, "root/d", "root/d", Some("deep/er"), false), self.build(1)]);
        self.run(ops);
        // Links that lead around in circles, above, out, to files and to directories
        let mut ops = small();
        for (n, t, to) in [("l1", ".", "root"), ("l2", "..", ""), ("l3", "l4", "root/l4"), ("l4", "l3", "root/l3"), ("l5", "d", "root/d"), ("l6", "d/f", "root/d/f"), ("l7", "/", "/"), ("d/l8", "../e", "root/e")] {
            ops.push(FOp::Mk { p: format!("root/{n}"), k: Kind::Link(t.into(), to.into()), mode: None, time: Some((500_000_001, 999_999_999)) });
        }
        ops.extend([FOp::New { h: 1 }, FOp::Conv { h: 1, conv: Conv::Utc }, rec(1, "root", "{}/root", Some("links"), false), self.build(1)]);
        self.run(ops);
        // The longest link target
        let long = "t/".repeat(2040);
        let mut ops = small();
        ops.push(mk("root/long", Kind::Link(long, "nope".into())));
        ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", None, false), self.build(1)]);
        self.run(ops);
        // Many objects, wide and deep
        let n = self.num(300, 3000);
        let mut ops = vec![mk("root", Kind::Dir)];
        for i in 0..n {
            ops.push(mk(&format!("root/f{i}"), if i % 7 == 0 { Kind::Dir } else { Kind::File(i % 3, i) }));
        }
        ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", Some("wide"), false), self.build(1)]);
        self.run(ops);
        let mut ops = vec![mk("root", Kind::Dir)];
        let mut p = "root".to_string();
        for i in 0..200 {
            p = format!("{p}/d{i}");
            ops.push(mk(&p, Kind::Dir));
        }
        ops.push(mk(&format!("{p}/file"), Kind::File(30, 3)));
        ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", None, false), self.build(1)]);
        self.run(ops);
        // Deeper than paths can say
        for (len, n) in [(200, 25), (250, 17), (100, 60)] {
            let mut ops = vec![mk("root", Kind::Dir), mk("root/f", Kind::File(5, 5))];
            ops.push(FOp::Deep { p: "root".into(), len, n });
            ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", None, false)]);
            self.run(ops);
        }
        // Directories and files that are not accessible
        if self.user {
            for (m, what) in [(0o000, "root/d"), (0o400, "root/d"), (0o100, "root/d"), (0o500, "root/d"), (0o300, "root/e"), (0o100, "root/e"), (0o400, "root/e"), (0o077, "root/d"), (0o000, "root/d/f"), (0o377, "root/e"), (0o000, "root")] {
                for pre in [None, Some("p")] {
                    let mut ops = small();
                    for o in &mut ops {
                        if let FOp::Mk { p, mode, .. } = o {
                            if p == what {
                                *mode = Some(m);
                            }
                        }
                    }
                    ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", pre, true)]);
                    ops.push(FOp::Build { h: 1, caps: vec![100], seed: 5, user: true });
                    self.run(ops);
                }
            }
        }
        // Sizes whose sum is too big
        let huge = (1u64 << 62) + (1 << 61);
        let probe = std::path::Path::new("/dev/shm").join(format!("zharness-{}-probe", std::process::id()));
        let ok = std::fs::File::create(&probe).and_then(|f| f.set_len(huge)).is_ok();
        let _ = std::fs::remove_file(&probe);
        if ok {
            for n in 1..5 {
                self.n += 1;
                let mut ops = vec![mk("root", Kind::Dir), mk("root/f", Kind::File(5, 5))];
                for i in 0..n {
                    ops.push(mk(&format!("root/huge{i}"), Kind::Sparse(huge)));
                }
                ops.extend([FOp::New { h: 1 }, rec(1, "root", "{}/root", Some("p"), false)]);
                let sc = FScenario { id: format!("{}-{}", self.prefix, self.n), fops: ops, shm: true };
                run(self.out, &sc);
            }
        }
    }

    fn given(&mut self) -> String {
        match self.r.below(14) {
            0 => "name/".into(),
            1 => "name//".into(),
            2 => "/".into(),
            3 => "".into(),
            4 => "a/b/c///".into(),
            5 => "//lead".into(),
            6 => "x".repeat(65_534) + "/",
            7 => "x".repeat(65_535),
            8 => "x".repeat(65_536),
            9 => "x".repeat(65_535) + "//",
            10 => "日本語/".into(),
            _ => format!("n{}", self.r.below(5)),
        }
    }

    pub fn c17(&mut self) {
        let mk = Self::mk;
        // Every kind of change of a file between adding and reading, alone and between others
        for size in [1u64, 2, 50, 8191, 8192, 8193, 20_000] {
            let mut changes: Vec<Option<FOp>> = vec![None, Some(FOp::Rm { p: "f".into() })];
            for new in [0, 1, size - 1, size, size + 1, 2 * size, size + 9000] {
                changes.push(Some(mk("f", Kind::File(new, 77))));
            }
            changes.push(Some(mk("f", Kind::Dir)));
            changes.push(Some(mk("f", Kind::Link("g".into(), "g".into()))));
            changes.push(Some(mk("f", Kind::Link("f".into(), "f".into()))));
            for ch in changes {
                for others in [false, true] {
                    let mut ops = vec![mk("f", Kind::File(size, 7)), mk("g", Kind::File(size, 8)), mk("d", Kind::Dir), mk("l", Kind::Link("over/there".into(), "over/there".into()))];
                    ops.push(FOp::New { h: 1 });
                    for (slot, p) in ["g", "f", "d", "l"].into_iter().enumerate() {
                        ops.push(FOp::Md { slot, p: p.into(), follow: false });
                    }
                    let add = |slot: usize, p: &str, name: &str| FOp::AddOne { h: 1, slot, p: p.into(), name: name.into() };
                    if others {
                        ops.extend([add(0, "g", "first"), add(2, "d", "dir")]);
                    }
                    ops.push(add(1, "f", "file/"));
                    if others {
                        ops.extend([add(3, "l", "link/"), add(0, "g", "last")]);
                    }
                    ops.extend(ch.clone());
                    ops.push(FOp::Clone { h: 1, nh: 2 });
                    ops.push(self.build(1));
                    ops.push(self.build(2));
                    self.run(ops);
                }
            }
        }
        // Names
        for k in [Kind::Dir, Kind::File(3, 3), Kind::File(0, 0), Kind::Link("t".into(), "t".into())] {
            let mut ops = vec![mk("o", k), FOp::Md { slot: 1, p: "o".into(), follow: false }, FOp::New { h: 1 }];
            let long = |n: usize, e: &str| "x".repeat(n) + e;
            for name in ["a", "a/", "a//", "/a", "//a//", "a/b", "a//b///", "", "/", "//", "🎉/", " ", "a/.", "..", "\\", "a\\", "a\u{0}", "\n/"]
                .into_iter()
                .map(|s| s.to_string())
                .chain([long(65_534, ""), long(65_534, "/"), long(65_535, ""), long(65_535, "/"), long(65_536, ""), long(65_534, "////")])
            {
                ops.push(FOp::AddOne { h: 1, slot: 1, p: "o".into(), name });
            }
            ops.push(FOp::Build { h: 1, caps: vec![5000], seed: 3, user: false });
            self.run(ops);
        }
        let odd: Vec<String> = crate::bgen::ODD_NAMES.iter().chain(FAMILIAR).flat_map(|n| [n.to_string(), format!("{n}/"), format!("d/{n}")]).collect();
        for k in [Kind::Dir, Kind::File(2, 3), Kind::Link("t".into(), "t".into())] {
            for names in odd.chunks(30) {
                let mut ops = vec![mk("o", k.clone()), FOp::Md { slot: 1, p: "o".into(), follow: false }, FOp::New { h: 1 }];
                ops.extend(names.iter().map(|name| FOp::AddOne { h: 1, slot: 1, p: "o".into(), name: name.clone() }));
                ops.push(FOp::Build { h: 1, caps: vec![5000], seed: 3, user: false });
                self.run(ops);
            }
        }
        // A file that only some may read
        if self.user {
            for m in [0o000, 0o400, 0o200, 0o077, 0o444] {
                let mut ops = vec![FOp::Mk { p: "f".into(), k: Kind::File(10, 1), mode: Some(m), time: None }];
                ops.extend([FOp::Md { slot: 1, p: "f".into(), follow: false }, FOp::New { h: 1 }, FOp::AddOne { h: 1, slot: 1, p: "f".into(), name: "f".into() }]);
                ops.push(FOp::Build { h: 1, caps: vec![64], seed: 2, user: true });
                self.run(ops);
            }
        }
        // Random histories
        for _ in 0..self.num(200, 3000) {
            let mut ops = self.tree("r", 10, false);
            let paths: Vec<String> = ops.iter().filter_map(|o| match o {
                FOp::Mk { p, .. } => Some(p.clone()),
                _ => None,
            }).collect();
            ops.push(FOp::New { h: 1 });
            self.conv(&mut ops, 1);
            let mut gone: Vec<String> = vec![];
            for _ in 0..self.r.range(2, 9) {
                let p = self.r.pick(&paths).clone();
                let under = |g: &Vec<String>, p: &str| g.iter().any(|x| p == x || p.starts_with(&format!("{x}/")));
                match self.r.below(10) {
                    0 if p != "r" => {
                        if !under(&gone, &p) {
                            ops.push(FOp::Rm { p: p.clone() });
                            gone.push(p);
                        }
                    }
                    1 if p != "r" => {
                        if !under(&gone, &p) {
                            let below = paths.iter().any(|q| q.starts_with(&format!("{p}/")));
                            if !below {
                                let k = Kind::File(self.size(), self.r.below(50));
                                let (mode, time) = (self.mode(), self.time());
                                ops.push(FOp::Mk { p, k, mode, time });
                            }
                        }
                    }
                    2 => {
                        ops.push(FOp::Clone { h: 1, nh: 2 });
                        ops.push(self.build(2));
                    }
                    _ => {
                        let slot = self.r.below(3) as usize;
                        let follow = self.r.chance(1, 3);
                        ops.push(FOp::Md { slot, p: p.clone(), follow });
                        let name = self.given();
                        ops.push(FOp::AddOne { h: 1, slot, p, name });
                    }
                }
            }
            ops.push(self.build(1));
            self.run(ops);
        }
    }
}

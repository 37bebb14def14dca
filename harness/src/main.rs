//! Drives the real code and records traces for the TLA+ specifications in /verif/spec.
mod bexec;
mod bgen;
mod fexec;
mod fgen;
mod rexec;
mod rgen;
#[cfg(feature = "sources")]
mod sexec;
mod util;
#[cfg(feature = "web")]
mod web;
#[cfg(feature = "web")]
mod wgen;
mod world;

use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

static BEAT: AtomicU64 = AtomicU64::new(0);
pub static PANIC_IS_OURS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static CURRENT: Mutex<String> = Mutex::new(String::new());

pub fn heartbeat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

/// Remembers what is being executed, for the case of it hanging or taking the process down.
pub fn set_current(desc: &str) {
    heartbeat();
    let mut c = CURRENT.lock().unwrap_or_else(|e| e.into_inner());
    c.clear();
    c.push_str(desc);
}

fn arg(name: &str) -> Option<String> {
    let args: Vec<String> = std::env::args().collect();
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let what = std::env::args().nth(1).expect("what to run");
    let dir = PathBuf::from(arg("--out").expect("--out"));
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let thorough = arg("--tier").is_some_and(|t| t == "thorough");
    let shards: usize = arg("--shards").map_or(4, |s| s.parse().unwrap());
    std::fs::create_dir_all(&dir).unwrap();

    let quiet = std::env::var_os("ZH_PANICS").is_none();
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        // Paths of this crate's own files are relative
        let own = i.location().is_some_and(|l| l.file().starts_with("src/"));
        PANIC_IS_OURS.store(own, Ordering::Relaxed);
        if !quiet || own {
            old(i);
        }
    }));
    {
        let dir = dir.clone();
        std::thread::spawn(move || {
            let (mut last, mut same) = (u64::MAX, 0);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let b = BEAT.load(Ordering::Relaxed);
                same = if b == last { same + 1 } else { 0 };
                last = b;
                if same >= 40 {
                    let c = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
                    let _ = std::fs::write(dir.join("hang.json"), c);
                    std::process::exit(97);
                }
            }
        });
    }

    let mut out = util::Out::new(&dir, shards);
    if thorough {
        out.most = (6000, 4 << 30);
    }
    if what == "exec" {
        let input: serde_json::Value = serde_json::from_reader(std::fs::File::open(arg("--input").expect("--input")).unwrap()).unwrap();
        exec(&mut out, &input, &arg("--family").expect("--family"));
        out.finish();
        return;
    }
    match what.as_str() {
        "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C12" | "C13" | "C18" | "R17" | "W17" | "W03" | "W06" => {
            let data = matches!(what.as_str(), "C07" | "C12");
            let mut g = rgen::Gen::new(&mut out, seed, thorough, &what, data);
            if let Some(b) = arg("--behaviours") {
                g.behaviours(&b);
            }
            match what.as_str() {
                "C03" => g.c03(),
                "C04" => g.c04(),
                "C05" => g.c05(),
                "C06" => g.c06(),
                "C07" => g.c07(),
                "C08" => g.c08(),
                "C12" => g.c12(),
                "C13" => g.c13(),
                "R17" => g.c17(),
                "W17" => g.w17(),
                "W03" => g.w03(),
                "W06" => g.w06(),
                _ => g.c18(),
            }
        }
        #[cfg(feature = "web")]
        "range" => wgen::ranges(&mut out, seed, thorough, arg("--behaviours").as_deref()),
        #[cfg(feature = "web")]
        "C14" | "C15" => {
            let mut g = rgen::Gen::new(&mut out, seed, thorough, &what, true);
            if let Some(b) = arg("--behaviours") {
                g.behaviours(&b);
            }
            if what == "C14" { g.c14() } else { g.c15() }
        }
        "bulk" => {
            for n in if thorough { &[65_534usize, 65_535, 65_536, 65_537, 131_072, 200_000][..] } else { &[65_535, 65_537] } {
                bgen::bulk(&mut out, *n);
            }
        }
        "vast" => {
            // 65082 and 65074 bytes for each entry
            for n in if thorough { &[65_995usize, 66_002, 70_000][..] } else { &[66_002] } {
                bgen::vast(&mut out, *n, 65_000);
            }
        }
        "B01" | "B02" | "B09" | "B10" | "B11" | "B12" => {
            let mut g = bgen::BGen::new(&mut out, seed, thorough, &what);
            if let Some(b) = arg("--behaviours") {
                g.behaviours(&b);
            }
            match what.as_str() {
                "B01" => g.c01(),
                "B02" => g.c02(),
                "B09" => g.c09(),
                "B10" => g.c10(),
                "B11" => g.c11(),
                _ => g.c12(),
            }
        }
        #[cfg(feature = "sources")]
        "C19" => sexec::generate(&mut out, seed, thorough, arg("--behaviours").as_deref()),
        "F16" | "F17" => {
            let mut g = fgen::FGen::new(&mut out, seed, thorough, &what);
            if let Some(b) = arg("--behaviours") {
                g.behaviours(&b);
            }
            if what == "F16" { g.c16() } else { g.c17() }
        }
        x => {
            eprintln!("unknown scenario family {x}");
            std::process::exit(98);
        }
    }
    out.finish();
}

/// Runs a single recorded input again
fn exec(out: &mut util::Out, input: &serde_json::Value, family: &str) {
    if let Some(n) = input.get("bulk") {
        bgen::bulk(out, n.as_u64().unwrap() as usize);
    } else if let Some(v) = input.get("vast") {
        bgen::vast(out, v[0].as_u64().unwrap() as usize, v[1].as_u64().unwrap() as usize);
    } else if input.get("range").is_some() {
        #[cfg(feature = "web")]
        wgen::range_trace(out, "exec", &serde_json::from_value(input["arch"].clone()).unwrap(), serde_json::from_value(input["headers"].clone()).unwrap());
    } else if input.get("source").is_some() {
        #[cfg(feature = "sources")]
        sexec::run(out, &serde_json::from_value(input.clone()).unwrap());
    } else if input.get("fops").is_some() {
        fexec::run(out, &serde_json::from_value(input.clone()).unwrap());
    } else if input.get("bops").is_some() {
        bexec::run(out, &serde_json::from_value(input.clone()).unwrap());
    } else if input.get("scenario").is_some() {
        let spec: rexec::ArchSpec = serde_json::from_value(input["arch"].clone()).unwrap();
        let sc: rexec::Scenario = serde_json::from_value(input["scenario"].clone()).unwrap();
        let data = matches!(family, "C07" | "C12" | "C14" | "C15");
        out.arch(&rexec::arch_json(&rexec::ArchSpec { kind: "scripted".into(), ..Default::default() }, data));
        let a = out.arch(&rexec::arch_json(&spec, data));
        rexec::run(out, &spec, a, &sc);
    } else {
        eprintln!("unknown input");
        std::process::exit(98);
    }
}

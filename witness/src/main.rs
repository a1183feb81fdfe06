//! `witness run PROP --seed N --secs S --max N --dir DIR [--barc PATH]`
//! searches for inputs on which the property fails on the real code;
//! `witness case PROP CASE ...` repeats one case verbosely.
//!
//! A case is fully determined by the property and the case number (a u64
//! seeding its generator). Results go to stdout as one JSON object. Exit
//! status 0: no failure; 1: a failing case; anything else: the search itself
//! did not work.

mod barcs;
mod body;
mod cli;
mod dialog;
mod fault;
mod futio;
mod gen;

use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use gen::Rng;

/// One generated case.
pub struct Case<'a> {
    pub rng: Rng,
    /// scratch directory, empty at the start of each case
    pub dir: &'a Path,
    pub barc: &'a Path,
    /// readable account of the input, built up as it is generated
    pub log: String,
}

impl<'a> Case<'a> {
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.log.len() < 6000 {
            let _ = writeln!(self.log, "{}", s.as_ref());
        }
    }
}

/// `Ok(true)`: the case exercised the property; `Ok(false)`: trivial.
pub type Outcome = Result<bool, String>;
type Prop = fn(&mut Case) -> Outcome;

fn prop(name: &str) -> Option<Prop> {
    Some(match name {
        "C01" => body::c01,
        "C02" => body::c02,
        "C03" => futio::c03,
        "C04" => body::c04,
        "C05" => barcs::c05,
        "C06" => barcs::c06,
        "C07" => barcs::c07,
        "C08" => barcs::c08,
        "C09" => barcs::c09,
        "C10" => barcs::c10,
        "C11" => barcs::c11,
        "C12" => dialog::c12,
        "C13" => futio::c13,
        "C14" => futio::c14,
        "C15" => futio::c15,
        "C16" => futio::c16,
        "C17" => futio::c17,
        "C18" => futio::c18,
        "C19" => cli::c19,
        "C20" => futio::c20,
        _ => return None,
    })
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static CURRENT: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clear_dir(dir: &Path) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() { let _ = std::fs::remove_dir_all(&p); }
            else { let _ = std::fs::remove_file(&p); }
        }
    }
}

const INTERRUPTED: &[&str] = &["C01", "C02", "C04", "C06", "C13", "C14", "C15"];

fn run_case(name: &str, f: Prop, n: u64, dir: &Path, barc: &Path) -> (Outcome, String) {
    clear_dir(dir);
    let mut case = Case { rng: Rng::new(n), dir, barc, log: String::new() };
    LAST_PANIC.lock().unwrap().clear();
    if case.rng.chance(1, 3) {
        // the codec libraries do not take interrupted reads
        let d = fault::mild(&mut case.rng, INTERRUPTED.contains(&name));
        case.note(format!("file calls: {}/8 interrupted, {}/8 short", d.interrupts, d.shorts));
        fault::disturb(Some(d));
    }
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(&mut case)));
    fault::limit_file_size(None);
    fault::disturb(None);
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.lock().unwrap())),
    };
    (r, case.log)
}

fn fail_json(prop: &str, n: u64, what: &str, log: &str, evals: u64) -> String {
    format!("{{\"property\":{},\"case\":{},\"failed\":{},\"input\":{},\"evaluations\":{}}}",
            esc(prop), n, esc(what), esc(log), evals)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
            .unwrap_or_else(|| d.to_string())
    };
    if args.len() < 3 { eprintln!("usage"); std::process::exit(2); }
    let name = args[2].clone();
    let f = match prop(&name) {
        Some(f) => f,
        None => { eprintln!("no such property {}", name); std::process::exit(2); }
    };
    let dir = PathBuf::from(get("--dir", ""));
    if !dir.is_absolute() { eprintln!("--dir must be absolute"); std::process::exit(2); }
    let dir = dir.join("scratch");
    std::fs::create_dir_all(&dir).expect("scratch");
    let barc = PathBuf::from(get("--barc", ""));
    fault::init();
    panic::set_hook(Box::new(|i| {
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{}", i);
    }));

    if args[1] == "case" {
        let n: u64 = args[3].parse().expect("case number");
        let (r, log) = run_case(&name, f, n, &dir, &barc);
        clear_dir(&dir);
        println!("{}", log);
        match r {
            Ok(_) => println!("case {} of {}: held", n, name),
            Err(e) => { println!("case {} of {}: FAILED: {}", n, name, e); std::process::exit(1); }
        }
        return;
    }

    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let secs: f64 = get("--secs", "5").parse().unwrap();
    let max: u64 = get("--max", "100000000").parse().unwrap();
    let state = get("--state", "");
    let start = Instant::now();
    {
        // a case that does not come back is a failure of its own
        let name = name.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = STARTED.load(Ordering::SeqCst);
            if t != 0 && start.elapsed().as_millis() as u64 > t + 30_000 {
                println!("{}", fail_json(&name, CURRENT.load(Ordering::SeqCst),
                    "did not finish within 30 s", "", 0));
                std::process::exit(1);
            }
        });
    }
    let mut distinct = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut evals = 0;
    while evals < max && start.elapsed().as_secs_f64() < secs {
        let n = gen::mix(seed, evals);
        CURRENT.store(n, Ordering::SeqCst);
        STARTED.store(1 + start.elapsed().as_millis() as u64, Ordering::SeqCst);
        if !state.is_empty() { let _ = std::fs::write(&state, n.to_string()); }
        let (r, log) = run_case(&name, f, n, &dir, &barc);
        evals += 1;
        match r {
            Ok(nontrivial) => if nontrivial {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                log.hash(&mut h);
                if distinct.insert(h.finish()) && samples.len() < 3 {
                    samples.push(log.chars().take(600).collect());
                }
            },
            Err(e) => {
                STARTED.store(0, Ordering::SeqCst);
                clear_dir(&dir);
                println!("{}", fail_json(&name, n, &e, &log, evals));
                std::process::exit(1);
            }
        }
    }
    STARTED.store(0, Ordering::SeqCst);
    clear_dir(&dir);
    println!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}",
             esc(&name), evals, distinct.len(),
             samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
}

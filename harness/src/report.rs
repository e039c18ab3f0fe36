//! Violations, histories, panics, hangs.
use crate::sut::Op;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, Default)]
pub struct History {
    pub config: String,
    pub ords: Vec<u128>,
    pub blocks: Vec<usize>,
    pub steps: Vec<(u8, usize, u64, u8)>,
    pub note: String,
    /// calls that are not map operations
    pub texts: Vec<String>,
}
pub static HIST: Mutex<History> = Mutex::new(History { config: String::new(), ords: vec![], blocks: vec![], steps: vec![], note: String::new(), texts: vec![] });
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static PANIC: Mutex<String> = Mutex::new(String::new());
static JOURNAL: Mutex<Option<std::fs::File>> = Mutex::new(None);

pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }

pub fn begin(config: &str, ords: &[u128], blocks: &[usize], note: String) {
    let mut h = lock(&HIST);
    h.config = config.to_string();
    h.ords = ords.to_vec();
    h.blocks = blocks.to_vec();
    h.steps.clear();
    h.texts.clear();
    h.note = note;
    let mut j = lock(&JOURNAL);
    if let Some(f) = j.as_mut() {
        let _ = writeln!(f, "walk {} {:?} {:?} {}", h.config, h.ords, h.blocks, h.note);
    }
}
pub fn step(op: Op, a: usize, b: u64, q: u8) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut h = lock(&HIST);
    if op == Op::From { h.steps.clear(); }
    h.steps.push((op as u8, a, b, q));
    drop(h);
    let mut j = lock(&JOURNAL);
    if let Some(f) = j.as_mut() { let _ = writeln!(f, "{} {} {} {}", op.name(), a, b, q); }
}
pub fn text(t: String, fresh: bool) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut h = lock(&HIST);
    if fresh { h.texts.clear(); }
    let mut j = lock(&JOURNAL);
    if let Some(f) = j.as_mut() { let _ = writeln!(f, "{t}"); }
    h.texts.push(t);
}
/// for machinery whose steps are not map operations
pub fn tick(note: &str) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let mut h = lock(&HIST);
    h.note.clear();
    h.note.push_str(note);
    drop(h);
    let mut j = lock(&JOURNAL);
    if let Some(f) = j.as_mut() { let _ = writeln!(f, "note {note}"); }
}
pub fn journal_to(path: &str) { *lock(&JOURNAL) = Some(std::fs::File::create(path).expect("journal")); }

/// Human- and machine-readable account of what fails.
pub fn account(prop: &str, msg: &str) -> String {
    let h = lock(&HIST);
    let mut s = String::new();
    s += &format!("property {prop}\nconfig {}\n", h.config);
    s += &format!("ordinals {}\n", h.ords.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(" "));
    s += &format!("blocks {}\n", h.blocks.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(" "));
    s += &format!("profile {}\n", if cfg!(debug_assertions) { "checked" } else { "release" });
    if !h.note.is_empty() { s += &format!("note {}\n", h.note.replace('\n', " ")); }
    for (o, a, b, q) in &h.steps {
        s += &format!("step {} {} {} {}\n", crate::sut::OPS[*o as usize].1, a, b, q);
    }
    for t in &h.texts { s += &format!("call {t}\n"); }
    s += &format!("FAIL {}\n", msg.replace('\n', " "));
    s
}

/// Prints the violation in the form the driver picks up, and stops this process.
pub fn violation(prop: &str, msg: &str) -> ! {
    let acc = account(prop, msg);
    let out = std::io::stdout();
    let mut o = out.lock();
    let _ = writeln!(o, "@@VIOLATION-BEGIN\n{acc}@@VIOLATION-END");
    let _ = o.flush();
    std::process::exit(1);
}

pub fn install(prop: &str, hang_secs: u64) {
    std::panic::set_hook(Box::new(|i| {
        let mut m = i.to_string();
        if let Some(l) = i.location() { m = format!("{} ({}:{})", m.replace('\n', " "), l.file(), l.line()); }
        *lock(&PANIC) = m;
    }));
    let prop = prop.to_string();
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::Relaxed), std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p == u64::MAX { return; }
            if p != last.0 {
                last = (p, std::time::Instant::now());
            } else if last.1.elapsed().as_secs() >= hang_secs {
                violation(&prop, &format!("the last operation did not return within {hang_secs} s"));
            }
        }
    });
}
/// Did the comparing machinery itself panic?  (A panic in a component or key type of ours happens
/// inside a call of the code under test, which used it wrongly.)
pub fn machinery(m: &str) -> bool { ["lts", "rng", "args", "report", "walk"].iter().any(|f| m.contains(&format!("(src/{f}.rs"))) }
/// Stops if the last caught panic is the machinery's own.
pub fn own_panic(prop: &str) -> String {
    let m = lock(&PANIC).clone();
    if machinery(&m) { println!("@@HARNESS-ERROR {}", account(prop, &m)); std::process::exit(3); }
    m
}
/// Runs a program; a panic of the code under test that nothing else has judged is a violation.
pub fn guard(f: fn()) {
    if std::panic::catch_unwind(f).is_err() {
        let m = lock(&PANIC).clone();
        let prop = crate::args::Args::get().opt("prop").unwrap_or_default();
        if m.contains("(src/") { println!("@@HARNESS-ERROR {}", account(&prop, &m)); std::process::exit(3); }
        violation(&prop, &format!("panic: {m}"));
    }
}
/// call before long phases that make no calls into the library
pub fn idle() { PROGRESS.fetch_add(1, Ordering::Relaxed); }

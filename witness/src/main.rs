//! Replay engine: executes the real crate on generated inputs and compares with reference models written from the
//! property statements.  Used to find a concrete failing input after a proof failed, to replay one, and as the
//! bounded stand-in for functions outside the verifier's reach.
//!
//!   witness run FAMILY[,FAMILY] SEED CASES SECONDS     summary on stdout; exit 1 with FAIL lines
//!   witness one FAMILY SEED INDEX                      a single case, exit 1 when it fails
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

mod mem;
mod misc;
mod net;
mod util;
mod views;
#[cfg(feature = "logging")]
mod logs;

#[derive(Clone)]
pub struct R(pub u64);
impl R {
    pub fn new(seed: u64) -> R {
        let mut r = R(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.idx(v.len())].clone()
    }
}

/// small random delay, to vary the interleaving
pub fn jitter(r: &mut R) {
    match r.below(8) {
        0 => std::thread::sleep(Duration::from_micros(r.range(1, 150))),
        1 | 2 => std::thread::yield_now(),
        3 => {
            for _ in 0..r.below(2000) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

/// A finished case: whether it was more than trivial, and a description.
pub struct Done {
    pub nontrivial: bool,
    pub desc: String,
}
pub type Res = Result<Done, String>;
pub fn ok(nontrivial: bool, desc: String) -> Res {
    Ok(Done { nontrivial, desc })
}

pub static NOTES: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// mismatches seen by contexts, reported even if the case then hangs
pub fn note(s: String) {
    let mut n = NOTES.lock().unwrap_or_else(|e| e.into_inner());
    if n.len() < 20 {
        n.push(s);
    }
}

static ABOUT: Mutex<String> = Mutex::new(String::new());
static AT: Mutex<[usize; 16]> = Mutex::new([0; 16]);
/// context c is about to do step k (9999: it is done)
pub fn at(c: usize, k: usize) {
    AT.lock().unwrap_or_else(|e| e.into_inner())[c % 16] = k;
}
/// what is being executed, reported if it never ends
pub fn about(s: String) {
    *ABOUT.lock().unwrap_or_else(|e| e.into_inner()) = s;
}

fn family(name: &str) -> fn(&mut R) -> Res {
    match name {
        "time" => misc::time,
        "events" => misc::events,
        "types" => misc::types,
        "prog" => misc::prog,
        "infer" => misc::infer,
        "ids" => misc::ids,
        "dead" => misc::dead,
        "init" => misc::init,
        "outcome" => misc::outcome,
        "chan" => net::chan,
        "peek" => net::peek,
        "back" => net::back,
        "wire" => net::wire,
        "view" => views::view,
        "parent" => views::parent,
        "clock" => views::clock,
        "bcast" => util::bcast,
        "gen" => util::gen,
        "check" => util::check,
        "consume" => util::consume,
        "pcu" => util::pcu,
        "store" => mem::store,
        "pmu" => mem::pmu,
        "rmw" => mem::rmw,
        "dram" => mem::dram,
        #[cfg(feature = "logging")]
        "log" => logs::log,
        _ => panic!("unknown family {name}"),
    }
}
static CURRENT: Mutex<Option<(u64, Instant)>> = Mutex::new(None);

fn case(fam: &str, seed: u64, idx: u64) -> Res {
    NOTES.lock().unwrap_or_else(|e| e.into_inner()).clear();
    about(String::new());
    *CURRENT.lock().unwrap() = Some((idx, Instant::now()));
    let f = family(fam);
    let mut r = R::new(seed.wrapping_mul(1_000_003).wrapping_add(idx));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r)));
    *CURRENT.lock().unwrap() = None;
    let notes = NOTES.lock().unwrap_or_else(|e| e.into_inner()).join(" | ");
    match res {
        Ok(Ok(d)) if notes.is_empty() => Ok(d),
        Ok(Ok(d)) => Err(format!("{notes} :: {}", d.desc)),
        Ok(Err(e)) => Err(if notes.is_empty() { e } else { format!("{notes} | {e}") }),
        Err(_) => Err(format!("panic: {notes}")),
    }
}
fn one_line(s: &str) -> String {
    let s = s.replace('\n', " ");
    if s.len() > 6000 { s.chars().take(6000).collect() } else { s }
}
fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(50));
        let c = *CURRENT.lock().unwrap();
        if let Some((i, t)) = c {
            if t.elapsed() > limit {
                let notes = NOTES.lock().unwrap_or_else(|e| e.into_inner()).join(" | ");
                let about = ABOUT.lock().unwrap_or_else(|e| e.into_inner()).clone();
                println!("HANG {i} {}", one_line(&format!("{notes} @@ at steps {:?} of {about}", AT.lock().unwrap_or_else(|e| e.into_inner()))));
                std::process::exit(3);
            }
        }
    });
}
fn child(a: &[String]) -> ! {
    // child FAMILY SEED START STEP COUNT DEADLINE_MS LIMIT_MS
    let (fam, n): (&str, Vec<u64>) = (&a[0], a[1..].iter().map(|x| x.parse().unwrap()).collect());
    let (seed, start, step, count, dl, lim) = (n[0], n[1], n[2], n[3], n[4], n[5]);
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if !m.contains("expected-panic") && !misc::QUIET.load(std::sync::atomic::Ordering::Relaxed) {
            note(format!("panicked: {m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default()));
        }
    }));
    watchdog(Duration::from_millis(lim));
    let t0 = Instant::now();
    let (mut done, mut seen) = (0u64, HashSet::new());
    let mut i = start;
    for _ in 0..count {
        if t0.elapsed() > Duration::from_millis(dl) {
            break;
        }
        println!("AT {i}");
        match case(fam, seed, i) {
            Ok(d) => {
                done += 1;
                if d.nontrivial {
                    seen.insert(d.desc.clone());
                }
                if done <= 1 {
                    println!("SAMPLE {}", one_line(&d.desc));
                }
            }
            Err(e) => {
                println!("FAIL {i} {}", one_line(&e));
                std::process::exit(1);
            }
        }
        i += step;
    }
    println!("END {done} {}", seen.len());
    std::process::exit(0);
}
enum Out {
    End(u64, u64, Vec<String>),
    Fail(u64, String),
    Hang(u64, String),
}
fn spawn_child(fam: &str, seed: u64, start: u64, step: u64, count: u64, dl: u64, lim: u64) -> Out {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("child")
        .arg(fam)
        .args([seed, start, step, count, dl, lim].iter().map(|x| x.to_string()))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let (mut at, mut out, mut samples) = (start, None, vec![]);
    for l in BufReader::new(c.stdout.take().unwrap()).lines() {
        let Ok(l) = l else { break };
        let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
        let split = || {
            let (i, m) = rest.split_once(' ').unwrap_or((rest, ""));
            (i.parse().unwrap_or(0), m.to_string())
        };
        match k {
            "AT" => at = rest.parse().unwrap_or(at),
            "SAMPLE" => samples.push(rest.to_string()),
            "FAIL" => { let (i, m) = split(); out = Some(Out::Fail(i, m)) }
            "HANG" => { let (i, m) = split(); out = Some(Out::Hang(i, m)) }
            "END" => { let (d, n) = split(); out = Some(Out::End(d, n.parse().unwrap_or(0), samples.clone())) }
            _ => {}
        }
    }
    let st = c.wait();
    out.unwrap_or_else(|| Out::Fail(at, format!("the process running the case ended abnormally: {st:?}")))
}
const LIMIT: u64 = 6000;
/// a hang counts when it (or a failure) shows again
fn confirm(fam: &str, seed: u64, i: u64, m: &str) -> Option<String> {
    let (notes, about) = m.split_once("@@").unwrap_or((m, ""));
    if !notes.trim().is_empty() {
        return Some(format!("{notes} (and then no progress) :: {about}"));
    }
    for k in 0..6 {
        match spawn_child(fam, seed, i, 1, 1, 100_000, if k < 2 { 3 * LIMIT } else { LIMIT }) {
            Out::End(..) => {}
            Out::Fail(_, e) => return Some(e),
            Out::Hang(_, e) => return Some(format!("deadlock, no progress for several seconds {}", e.replace("@@", "::"))),
        }
    }
    None
}
fn run(fams: &str, seed: u64, cases: u64, secs: u64) -> i32 {
    let fams: Vec<&str> = fams.split(',').collect();
    let jobs = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(2, 6);
    let mut bad = 0;
    for fam in &fams {
        let t0 = Instant::now();
        let budget = secs * 1000 / fams.len() as u64;
        let state: Mutex<(u64, u64, Vec<String>, HashMap<u64, String>, u64)> = Mutex::new((0, 0, vec![], HashMap::new(), 0));
        std::thread::scope(|s| {
            for j in 0..jobs {
                let state = &state;
                s.spawn(move || {
                    let (mut next, mut left) = (j, cases.div_ceil(jobs));
                    while left > 0 {
                        let el = t0.elapsed().as_millis() as u64;
                        if el >= budget || !state.lock().unwrap().3.is_empty() {
                            break;
                        }
                        match spawn_child(fam, seed, next, jobs, left, budget - el, LIMIT) {
                            Out::End(d, n, sm) => {
                                let mut g = state.lock().unwrap();
                                g.0 += d;
                                g.1 += n;
                                g.2.extend(sm);
                                break;
                            }
                            Out::Fail(i, m) => {
                                state.lock().unwrap().3.insert(i, m);
                                break;
                            }
                            Out::Hang(i, m) => {
                                if let Some(m) = confirm(fam, seed, i, &m) {
                                    state.lock().unwrap().3.insert(i, m);
                                    break;
                                }
                                let mut g = state.lock().unwrap();
                                g.4 += 1;
                                if g.4 >= 3 {
                                    let k = g.4;
                                    g.3.insert(i, format!("deadlock (intermittent, seen {k} times): {m}"));
                                    break;
                                }
                                drop(g);
                                let used = (i - next) / jobs + 1;
                                left = left.saturating_sub(used);
                                next = i + jobs;
                            }
                        }
                    }
                });
            }
        });
        let g = state.into_inner().unwrap();
        println!("FAMILY {fam} cases={} distinct={} wall_ms={}", g.0, g.1, t0.elapsed().as_millis());
        for s in g.2.iter().take(2) {
            println!("SAMPLE {fam} {}", s.chars().take(700).collect::<String>());
        }
        let mut fails: Vec<_> = g.3.into_iter().collect();
        fails.sort();
        if let Some((i, m)) = fails.first() {
            println!("FAIL family={fam} seed={seed} index={i} {m}");
            bad = 1;
        }
    }
    bad
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "child" => child(&a[1..]),
        "run" => std::process::exit(run(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap())),
        "one" => {
            let (s, i): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            for _ in 0..20 {
                match spawn_child(&a[1], s, i, 1, 1, 100_000, LIMIT) {
                    Out::End(_, _, d) => println!("ok {}", d.join(" ")),
                    Out::Fail(i, m) => { println!("FAIL {i} {m}"); std::process::exit(1) }
                    Out::Hang(i, m) => { println!("FAIL {i} hang {m}"); std::process::exit(1) }
                }
            }
        }
        _ => panic!("usage"),
    }
}

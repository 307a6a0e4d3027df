//! Time views against a predetermined clock history.
use crate::{jitter, ok, Res, R};
use dam::structures::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

const INF: u64 = u64::MAX;
fn val(t: Time) -> u64 {
    if t.is_infinite() { INF } else { t.time() }
}
/// A clock history: values after each step, ending with infinity.
struct Hist {
    vals: Vec<u64>,
    before: AtomicUsize,
    after: AtomicUsize,
}
#[derive(Clone, Copy)]
enum Mv {
    Inc(u64),
    Adv(u64),
    AdvInf,
    Drop,
}
fn history(r: &mut R) -> (Vec<Mv>, Arc<Hist>) {
    let n = r.range(0, 30) as usize;
    let (mut mv, mut vals, mut c) = (vec![], vec![0u64], 0u64);
    let big = r.chance(1, 3);
    for _ in 0..n {
        if r.chance(1, 2) {
            let k = if big && r.chance(1, 4) { r.below(1 << 40) } else { r.below(5) };
            c += k;
            mv.push(Mv::Inc(k));
        } else {
            let t = if r.chance(1, 4) { c.saturating_sub(r.below(5)) } else { c + r.below(6) };
            c = c.max(t);
            mv.push(Mv::Adv(t));
        }
        vals.push(c);
    }
    mv.push(if r.chance(1, 4) { Mv::AdvInf } else { Mv::Drop });
    vals.push(INF);
    (mv, Arc::new(Hist { vals, before: AtomicUsize::new(0), after: AtomicUsize::new(0) }))
}
fn writer(tm: TimeManager, mv: Vec<Mv>, h: Arc<Hist>, mut r: R) {
    let mut tm = Some(tm);
    for (i, m) in mv.into_iter().enumerate() {
        jitter(&mut r);
        h.before.store(i + 1, SeqCst);
        match m {
            Mv::Inc(k) => tm.as_ref().unwrap().incr_cycles(k),
            Mv::Adv(t) => tm.as_ref().unwrap().advance(Time::new(t)),
            Mv::AdvInf => tm.as_ref().unwrap().advance(Time::infinite()),
            Mv::Drop => drop(tm.take()),
        }
        h.after.store(i + 1, SeqCst);
        if let Some(t) = &tm {
            if val(t.tick()) != h.vals[i + 1] {
                crate::note(format!("tick is {:?} after step {i}, expected {}", t.tick(), h.vals[i + 1]));
            }
        }
    }
}
fn check(what: &str, r: u64, when: Option<u64>, lo: &[(u64, u64)], bad: &mut Vec<String>) {
    let min = lo.iter().map(|x| x.0).min();
    let max = lo.iter().map(|x| x.1).min();
    if let (Some(a), Some(b)) = (min, max) {
        if r < a || r > b {
            bad.push(format!("{what} returned {r}, but the clock was between {a} and {b} during the call"));
        }
    }
    if let Some(w) = when {
        if r < w {
            bad.push(format!("{what}: returned {r}, earlier than {w}"));
        }
    }
}
fn run(r: &mut R, parents: bool) -> Res {
    let nh = if parents { r.range(1, 3) } else { 1 } as usize;
    let (mut hs, mut views, mut ws) = (vec![], vec![], vec![]);
    for _ in 0..nh {
        let (mv, h) = history(r);
        let tm = TimeManager::new();
        views.push(tm.view());
        ws.push((tm, mv, h.clone(), R::new(r.next())));
        hs.push(h);
    }
    let nested = r.chance(1, 3);
    let mk = |views: &Vec<BasicContextView>| -> TimeView {
        if !parents {
            return views[0].clone().into();
        }
        let mut cs: Vec<TimeView> = views.iter().map(|v| v.clone().into()).collect();
        if nested && cs.len() > 1 {
            let tail = cs.split_off(1);
            cs.push(ParentView { child_views: tail }.into());
        }
        ParentView { child_views: cs }.into()
    };
    let nw = r.range(1, 6) as usize;
    let top = hs.iter().map(|h| h.vals[h.vals.len() - 2]).max().unwrap();
    let mut hands = vec![];
    for _ in 0..nw {
        let v = mk(&views);
        let v = if r.chance(1, 2) { v.clone() } else { v };
        let hs = hs.clone();
        let mut q = R::new(r.next());
        hands.push(std::thread::spawn(move || {
            let (mut bad, mut last) = (vec![], 0u64);
            for _ in 0..q.range(1, 12) {
                jitter(&mut q);
                // waking up for no reason is allowed to happen to any parked thread
                if q.chance(1, 3) {
                    std::thread::current().unpark();
                }
                let lo: Vec<u64> = hs.iter().map(|h| h.vals[h.after.load(SeqCst)]).collect();
                let (what, when, res) = if q.chance(2, 3) {
                    let base = *lo.iter().min().unwrap();
                    let w = match q.below(6) {
                        0 => q.below(top.saturating_add(3)),
                        5 if q.chance(1, 3) => INF,
                        k => (if base == INF { top } else { base }).saturating_add(k),
                    };
                    let t = if w == INF { Time::infinite() } else { Time::new(w) };
                    (format!("wait_until({w})"), Some(w), val(v.wait_until(t)))
                } else {
                    ("tick_lower_bound".to_string(), None, val(v.tick_lower_bound()))
                };
                let rng: Vec<(u64, u64)> = lo.iter().zip(&hs).map(|(a, h)| (*a, h.vals[h.before.load(SeqCst)])).collect();
                check(&what, res, when, &rng, &mut bad);
                if res < last {
                    bad.push(format!("{what} went back from {last} to {res}"));
                }
                last = last.max(res.min(rng.iter().map(|x| x.0).min().unwrap()));
                if hs.len() == 1 && !hs[0].vals.contains(&res) {
                    bad.push(format!("{what} returned {res}, never a value of the clock"));
                }
            }
            bad
        }));
    }
    std::thread::sleep(Duration::from_micros(r.below(300)));
    let wt: Vec<_> = ws.into_iter().map(|(a, b, c, d)| std::thread::spawn(move || writer(a, b, c, d))).collect();
    let mut bad: Vec<String> = vec![];
    for h in wt {
        h.join().map_err(|_| "the writer panicked".to_string())?;
    }
    for h in hands {
        bad.extend(h.join().map_err(|_| "a waiter panicked".to_string())?);
    }
    let d = format!("histories {:?}, {nw} waiters, parents={parents} nested={nested}", hs.iter().map(|h| h.vals.clone()).collect::<Vec<_>>());
    if bad.is_empty() { ok(hs[0].vals.len() > 3, d) } else { Err(format!("{} :: {d}", bad[..bad.len().min(3)].join(" | "))) }
}
pub fn view(r: &mut R) -> Res {
    run(r, false)
}
pub fn parent(r: &mut R) -> Res {
    run(r, true)
}
/// a local clock, step by step, with its view
pub fn clock(r: &mut R) -> Res {
    let mut tm = TimeManager::new();
    let v = tm.view();
    let (mut c, mut inf, mut d) = (0u64, false, String::new());
    for _ in 0..r.range(1, 20) {
        match r.below(10) {
            0..=3 => {
                let k = if r.chance(1, 5) { r.below(1 << 50) } else { r.below(9) };
                tm.incr_cycles(k);
                c += k;
                d += &format!(" incr({k})");
            }
            4..=7 => {
                let t = if r.chance(1, 3) { c.saturating_sub(r.below(6)) } else { c + r.below(9) };
                tm.advance(Time::new(t));
                if !inf {
                    c = c.max(t);
                }
                d += &format!(" advance({t})");
            }
            8 if r.chance(1, 4) => {
                let mut t = if r.chance(1, 2) { Time::infinite() } else { Time::new(r.below(1 << 20)) };
                t.set_infinite();
                tm.advance(t);
                inf = true;
                d += &format!(" advance({t:?})");
            }
            9 if r.chance(1, 5) => {
                tm.cleanup();
                inf = true;
                d += " cleanup";
            }
            _ => {}
        }
        let (t, b) = (tm.tick(), v.tick_lower_bound());
        for (n, x) in [("tick", t), ("tick_lower_bound", b), ("wait_until(0)", v.wait_until(Time::new(0)))] {
            if x.is_infinite() != inf || (!inf && x.time() != c) {
                return Err(format!("{n} is {x:?}, expected {c} infinite={inf} after{d}"));
            }
            if inf && n == "tick" && x.time() != c {
                return Err(format!("{n} lost the last cycle: {x:?}, expected {c} after{d}"));
            }
        }
    }
    drop(tm);
    if !v.tick_lower_bound().is_infinite() || v.wait_until(Time::infinite()) < Time::new(u64::MAX) {
        return Err(format!("the view is not infinite after the manager was dropped:{d}"));
    }
    ok(!d.is_empty(), d)
}

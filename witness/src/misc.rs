//! Single-threaded and program-level families.
use crate::{net, ok, Res, R};
use dam::channel::utils::{EventCollection, EventTime, Peekable};
use dam::channel::ChannelID;
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::*;
use dam::types::unevaluated::Unevaluated;
use dam::types::{DAMType, IndexLike, StaticallySized};
use dam::utility_contexts::*;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, Mutex};

pub static QUIET: AtomicBool = AtomicBool::new(false);
/// runs something that may panic, without noting the panic
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    QUIET.store(true, std::sync::atomic::Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.store(false, std::sync::atomic::Ordering::SeqCst);
    r
}

fn key(t: Time) -> u128 {
    if t.is_infinite() { 1 << 100 } else { t.time() as u128 }
}
fn any_time(r: &mut R) -> Time {
    let v = match r.below(6) {
        0 => 0,
        1 => r.below(4),
        2 => 1u64 << r.below(63),
        3 => (1u64 << r.below(63)) - 1,
        _ => r.below(1 << 62),
    };
    if r.chance(1, 4) {
        Time::from((true, v))
    } else {
        Time::new(v)
    }
}
pub fn time(r: &mut R) -> Res {
    let pool = [any_time(r), any_time(r), any_time(r)];
    let (a, b) = (r.pick(&pool), if r.chance(1, 5) { Time::infinite() } else { r.pick(&pool) });
    let d = format!("{a:?} {b:?}");
    let want = key(a).cmp(&key(b));
    macro_rules! chk {
        ($e:expr, $w:expr) => {
            let (x, y) = ($e, $w);
            if x != y {
                return Err(format!("{} = {:?}, expected {:?}, for {}", stringify!($e), x, y, d));
            }
        };
    }
    chk!(Ord::cmp(&a, &b), want);
    chk!(a.partial_cmp(&b), Some(want));
    chk!(a == b, want == Ordering::Equal);
    chk!(a != b, want != Ordering::Equal);
    chk!(a < b, want == Ordering::Less);
    chk!(a <= b, want != Ordering::Greater);
    chk!(key(std::cmp::max(a, b)), key(a).max(key(b)));
    chk!(key(std::cmp::min(a, b)), key(a).min(key(b)));
    let k = r.below(1 << 30);
    let cap = |t: Time, x: u128| if t.is_infinite() { 1 << 100 } else { t.time() as u128 + x };
    chk!(key(a + k), cap(a, k as u128));
    let mut c = a;
    c += k;
    chk!(key(c), cap(a, k as u128));
    chk!(key(a + b), if a.is_infinite() || b.is_infinite() { 1 << 100 } else { a.time() as u128 + b.time() as u128 });
    let mut c = a;
    c += b;
    chk!(key(c), key(a + b));
    if a.time() >= k {
        let w = if a.is_infinite() { 1 << 100 } else { (a.time() - k) as u128 };
        chk!(key(a - k), w);
    } else if !a.is_infinite() {
        chk!(quiet(|| a - k).is_none(), true);
    }
    let mut c = a;
    c.set_infinite();
    chk!(c.is_infinite(), true);
    chk!(c.time(), a.time());
    chk!(Time::infinite().is_infinite(), true);
    chk!(key(Time::from(k)), k as u128);
    chk!(Time::new(k).time(), k);
    chk!(Time::default() == Time::new(0), true);
    chk!(format!("{}", Time::new(k)), format!("{k}"));
    ok(true, d)
}

fn any_ev(r: &mut R) -> EventTime {
    let t = Time::new(r.below(8));
    match r.below(7) {
        0 => EventTime::Closed,
        1..=3 => EventTime::Ready(t),
        _ => EventTime::Nothing(t),
    }
}
/// Each event stands for the set of moments at which it may happen; the combination has to cover every choice.
pub fn events(r: &mut R) -> Res {
    let n = r.below(5) as usize;
    let ev: Vec<EventTime> = (0..n).map(|_| any_ev(r)).collect();
    let all = ev.clone().all_events().next_event();
    let any = ev.clone().any_event().next_event();
    let lo = |e: &EventTime| match e {
        EventTime::Ready(t) => t.time(),
        EventTime::Nothing(t) => t.time() + 1,
        EventTime::Closed => u64::MAX,
    };
    let d = format!("{ev:?}: all={all:?} any={any:?}");
    let fail = |m: &str| Err(format!("{m} for {d}"));
    let ready = |e: &EventTime| matches!(e, EventTime::Ready(_));
    // all
    match all {
        EventTime::Ready(t) => {
            if n == 0 || !ev.iter().all(ready) || ev.iter().map(lo).max() != Some(t.time()) {
                return fail("all_events is Ready although not every event is ready at that time");
            }
        }
        EventTime::Nothing(t) => {
            if ev.iter().all(ready) || ev.contains(&EventTime::Closed) || ev.iter().map(lo).max().unwrap_or(0) != t.time() + 1 {
                return fail("all_events gives a wrong lower bound");
            }
        }
        EventTime::Closed => {
            if n > 0 && !ev.contains(&EventTime::Closed) {
                return fail("all_events is Closed although every event may still happen");
            }
        }
    }
    let first = ev.iter().map(lo).min();
    match any {
        EventTime::Ready(t) => {
            if first != Some(t.time()) || !ev.contains(&any) {
                return fail("any_event is Ready although an event may happen earlier, or none happens then");
            }
        }
        EventTime::Nothing(t) => {
            if first.map(|f| f != t.time() + 1).unwrap_or(true) {
                return fail("any_event gives a wrong lower bound");
            }
        }
        EventTime::Closed => {
            if ev.iter().any(|e| *e != EventTime::Closed) {
                return fail("any_event is Closed although an event may still happen");
            }
        }
    }
    let (a, b) = (any_ev(r), any_ev(r));
    if a.cmp(&b) != lo(&a).cmp(&lo(&b)) || a.partial_cmp(&b) != Some(a.cmp(&b)) {
        return Err(format!("order of {a:?} and {b:?} is {:?}", a.cmp(&b)));
    }
    ok(n > 1, d)
}

pub fn types(r: &mut R) -> Res {
    fn sz<T: StaticallySized + DAMType>(want: usize, n: &str) -> Result<(), String> {
        if T::SIZE != want || T::default().dam_size() != want {
            return Err(format!("{n} has SIZE {} and dam_size {}, expected {want}", T::SIZE, T::default().dam_size()));
        }
        Ok(())
    }
    sz::<bool>(1, "bool")?;
    sz::<u8>(8, "u8")?;
    sz::<i8>(8, "i8")?;
    sz::<u16>(16, "u16")?;
    sz::<i16>(16, "i16")?;
    sz::<u32>(32, "u32")?;
    sz::<i32>(32, "i32")?;
    sz::<u64>(64, "u64")?;
    sz::<i64>(64, "i64")?;
    sz::<f32>(32, "f32")?;
    sz::<f64>(64, "f64")?;
    sz::<usize>(usize::BITS as usize, "usize")?;
    sz::<()>(0, "()")?;
    sz::<(u8, i32)>(40, "(u8, i32)")?;
    sz::<(bool, (f32, u16))>(49, "(bool, (f32, u16))")?;
    sz::<Unevaluated<u16>>(16, "Unevaluated<u16>")?;
    sz::<(Unevaluated<i64>, ())>(64, "(Unevaluated<i64>, ())")?;
    let (a, b, c) = (r.below(5) as usize, r.below(5) as usize, r.below(4) as usize);
    let m = ndarray::Array2::<u16>::zeros((a, b));
    let t = ndarray::Array3::<f32>::zeros((a, b, c));
    if m.dam_size() != a * b * 16 || t.dam_size() != a * b * c * 32 {
        return Err(format!("an array of {a}x{b} u16 has dam_size {}, one of {a}x{b}x{c} f32 {}", m.dam_size(), t.dam_size()));
    }
    let (x, y, z) = (r.next() as u8, r.next() as u16, r.next() as usize);
    if x.to_usize() != x as usize || y.to_usize() != y as usize || z.to_usize() != z {
        return Err(format!("to_usize changes {x} {y} or {z}: {} {} {}", x.to_usize(), y.to_usize(), z.to_usize()));
    }
    ok(true, format!("{a}x{b}x{c} {x} {y} {z}"))
}

#[context_macro]
struct Free {
    mode: u64,
    steps: u64,
}
impl Context for Free {
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        self.time.incr_cycles(self.steps);
        if self.mode == 1 {
            Err(anyhow::anyhow!("an error"))?
        }
        Ok(())
    }
}
#[context_macro]
struct Old {
    mode: u64,
    steps: u64,
    inits: Arc<Mutex<u64>>,
}
impl Context for Old {
    fn init(&mut self) {
        *self.inits.lock().unwrap() += 1;
    }
    fn run(&mut self) {
        if *self.inits.lock().unwrap() == 0 {
            crate::note("a context ran before init".into());
        }
        self.time.incr_cycles(self.steps);
        if self.mode == 1 {
            panic!("expected-panic");
        }
    }
}
pub fn outcome(r: &mut R) -> Res {
    let n = r.below(6);
    let inits = Arc::new(Mutex::new(0));
    let mut p = ProgramBuilder::default();
    let (mut bad, mut best, mut olds, mut d) = (0usize, None, 0, String::new());
    for _ in 0..n {
        let (mode, steps) = (r.chance(1, 3) as u64, r.below(50));
        if mode == 1 {
            bad += 1;
        } else {
            best = best.max(Some(steps));
        }
        d += &format!(" {mode}/{steps}");
        if r.chance(1, 2) {
            p.add_child(Free { mode, steps, context_info: Default::default() });
        } else {
            olds += 1;
            p.add_child(Old { mode, steps, inits: inits.clone(), context_info: Default::default() });
        }
    }
    if p.num_children() as u64 != n {
        return Err(format!("num_children is {} instead of {n}", p.num_children()));
    }
    let infer = r.chance(1, 2);
    let i = p.initialize(net::opts(infer)).map_err(|e| e.to_string())?;
    if *inits.lock().unwrap() != olds {
        return Err(format!("initialize called init {} times for {olds} contexts", inits.lock().unwrap()));
    }
    let e = i.run(RunOptions::default());
    let f = e.run_failures(|f| f.len());
    if e.passed() != (bad == 0) || f != bad || e.elapsed_cycles() != best {
        return Err(format!("{bad} contexts fail, the others need up to {best:?} cycles; passed={} failures={f} elapsed={:?}:{d}", e.passed(), e.elapsed_cycles()));
    }
    ok(n > 1, d)
}
/// every context of an accepted program is initialised once
pub fn init(r: &mut R) -> Res {
    let n = r.below(8);
    let counts: Vec<_> = (0..n).map(|_| Arc::new(Mutex::new(0))).collect();
    let mut p = ProgramBuilder::default();
    for c in &counts {
        p.add_child(Old { mode: 0, steps: 0, inits: c.clone(), context_info: Default::default() });
    }
    let _i = p.initialize(net::opts(r.chance(1, 2))).map_err(|e| e.to_string())?;
    let got: Vec<u64> = counts.iter().map(|c| *c.lock().unwrap()).collect();
    if got.iter().any(|c| *c != 1) {
        return Err(format!("the contexts of a program were initialised {got:?} times"));
    }
    ok(n > 1, format!("{n} contexts"))
}

pub fn prog(r: &mut R) -> Res {
    let n = r.range(1, 4) as usize;
    let mut p = ProgramBuilder::default();
    let ctx: Vec<FunctionContext<Box<dyn FnOnce(&mut TimeManager) + Send + Sync>>> = (0..n).map(|_| { let mut f = FunctionContext::new(); f.set_run(Box::new(|_: &mut TimeManager| {}) as _); f }).collect();
    let reg: Vec<bool> = (0..n).map(|_| r.chance(9, 10)).collect();
    let m = r.range(1, 4);
    let (mut keep, mut nos, mut nor, mut unreg) = (vec![], HashSet::new(), HashSet::new(), HashSet::new());
    for _ in 0..m {
        let void = r.chance(1, 4);
        let s_on = if r.chance(1, 10) { None } else { Some(r.idx(n)) };
        let r_on = if r.chance(1, 10) { None } else { Some(r.idx(n)) };
        let (s, rc) = if void {
            (p.void::<u32>(), None)
        } else if r.chance(1, 2) {
            let (a, b) = p.bounded(3);
            (a, Some(b))
        } else {
            let (a, b) = p.unbounded();
            (a, Some(b))
        };
        match s_on {
            Some(c) => {
                s.attach_sender(&ctx[c]);
                if !reg[c] {
                    unreg.insert(ctx[c].id().id);
                }
            }
            None => {
                nos.insert(format!("{:?}", s.id()));
            }
        }
        if let Some(rc) = rc {
            if rc.id() != s.id() {
                return Err("sender and receiver of a channel have different ids".into());
            }
            match r_on {
                Some(c) => {
                    rc.attach_receiver(&ctx[c]);
                    if !reg[c] {
                        unreg.insert(ctx[c].id().id);
                    }
                }
                None => {
                    nor.insert(format!("{:?}", rc.id()));
                }
            }
            keep.push((Some(s), Some(rc)));
        } else {
            keep.push((Some(s), None));
        }
    }
    let mut left = vec![];
    for (c, g) in ctx.into_iter().zip(reg) {
        if g { p.add_child(c) } else { left.push(c) }
    }
    let d = format!("no sender {nos:?}, no receiver {nor:?}, unregistered {unreg:?}");
    let fine = nos.is_empty() && nor.is_empty() && unreg.is_empty();
    match p.initialize(net::opts(r.chance(1, 2))) {
        Ok(i) => {
            if !fine {
                return Err(format!("initialize accepts: {d}"));
            }
            if !i.run(RunOptions::default()).passed() {
                return Err("an empty program fails".into());
            }
        }
        Err(e) => {
            let good = match &e {
                InitializationError::DisconnectedSender(c) => nos.contains(&format!("{c:?}")),
                InitializationError::DisconnectedReceiver(c) => nor.contains(&format!("{c:?}")),
                InitializationError::UnregisteredNode(c) => nos.is_empty() && nor.is_empty() && unreg.contains(&c.id),
            };
            if !good {
                return Err(format!("initialize reports {e}: {d}"));
            }
        }
    }
    ok(m > 1, d)
}
/// flavour inference must leave every run possible and every result the same
pub fn infer(r: &mut R) -> Res {
    let sh = r.range(1, 2);
    net::go(r, net::Bias { peek: true, shape: Some(sh), ..Default::default() })
}
pub fn ids(r: &mut R) -> Res {
    let (k, n) = (r.range(1, 6) as usize, r.range(1, 200) as usize);
    let hs: Vec<_> = (0..k)
        .map(|_| {
            std::thread::spawn(move || {
                (0..n).map(|i| (if i % 2 == 0 { Identifier::new() } else { Identifier::default() }.id, format!("{}", if i % 3 == 0 { ChannelID::default() } else { ChannelID::new() }))).collect::<Vec<_>>()
            })
        })
        .collect();
    let (mut a, mut b) = (HashSet::new(), HashSet::new());
    for h in hs {
        for (x, y) in h.join().unwrap() {
            if !a.insert(x) || !b.insert(y.clone()) {
                return Err(format!("identifier {x} or {y} was handed out twice, {k} threads, {n} each"));
            }
        }
    }
    let mut p = ProgramBuilder::default();
    let mut seen = HashSet::new();
    for i in 0..10 {
        let id = if i % 2 == 0 { p.bounded::<u8>(1).0.id() } else { p.void::<u8>().id() };
        if !seen.insert(format!("{id}")) || b.contains(&format!("{id}")) {
            return Err(format!("channel id {id} was handed out twice"));
        }
    }
    ok(k > 1, format!("{k} threads {n} each"))
}
/// use of endpoints before initialization, after the end, by a second owner
pub fn dead(r: &mut R) -> Res {
    let mut p = ProgramBuilder::default();
    let void = r.chance(1, 5);
    let cap = r.range(1, 3) as usize;
    let (s, q): (Sender<u32>, Option<Receiver<u32>>) = if void {
        (p.void(), None)
    } else if r.chance(1, 2) {
        let (a, b) = p.bounded(cap);
        (a, Some(b))
    } else {
        let (a, b) = p.unbounded();
        (a, Some(b))
    };
    let tm = TimeManager::new();
    let el = || ChannelElement::new(Time::new(1), 7u32);
    // before initialization
    if let Some(Ok(())) = quiet(|| s.enqueue(&tm, el())) {
        return Err(format!("enqueue before initialization succeeds (void={void})"));
    }
    if let Some(Ok(())) = quiet(|| s.wait_until_available(&tm)) {
        return Err(format!("wait_until_available before initialization succeeds (void={void})"));
    }
    if let Some(q) = &q {
        if let Some(Ok(x)) = quiet(|| q.dequeue(&tm)) {
            return Err(format!("dequeue before initialization gives {x:?}"));
        }
        if let Some(Ok(x)) = quiet(|| q.peek_next(&tm)) {
            return Err(format!("peek_next before initialization gives {x:?}"));
        }
        if let Some(dam::channel::PeekResult::Something(x)) = quiet(|| q.peek()) {
            return Err(format!("peek before initialization gives {x:?}"));
        }
    }
    type B = Box<dyn FnOnce(&mut TimeManager) + Send + Sync>;
    let mut a: FunctionContext<B> = FunctionContext::new();
    let mut b: FunctionContext<B> = FunctionContext::new();
    let mut p = ProgramBuilder::default();
    let (s, q): (Sender<u32>, Receiver<u32>) = p.unbounded();
    s.attach_sender(&a);
    q.attach_receiver(&b);
    // after the other side is gone
    let k = r.below(4);
    let out = Arc::new(Mutex::new(vec![]));
    let o2 = out.clone();
    a.set_run(Box::new(move |t| {
        for i in 0..k {
            s.enqueue(t, ChannelElement::new(t.tick(), i as u32)).unwrap();
            t.incr_cycles(1);
        }
    }));
    b.set_run(Box::new(move |t| {
        loop {
            match q.dequeue(t) {
                Ok(x) => o2.lock().unwrap().push(x.data),
                Err(_) => break,
            }
        }
        for _ in 0..3 {
            if q.dequeue(t).is_ok() || q.peek_next(t).is_ok() || !matches!(q.peek(), dam::channel::PeekResult::Closed) {
                crate::note("a closed channel gives elements".into());
            }
        }
    }));
    p.add_child(a);
    p.add_child(b);
    let e = p.initialize(net::opts(r.chance(1, 2))).map_err(|e| e.to_string())?.run(RunOptions::default());
    let got = out.lock().unwrap().clone();
    if !e.passed() || got != (0..k as u32).collect::<Vec<_>>() {
        return Err(format!("sent {k}, received {got:?}, passed={}", e.passed()));
    }
    ok(k > 0, format!("void={void} cap={cap} k={k}"))
}

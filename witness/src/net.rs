//! Timed networks: scripts for several contexts, generated by running a reference model of DAM's channels, executed on
//! the real crate, and compared operation by operation (clock, value, stamp).
use crate::{jitter, note, ok, Res, R};
use dam::channel::adapters::{RecvAdapter, SendAdapter};
use dam::channel::utils::{EventTime, Peekable};
use dam::channel::PeekResult;
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{Time, TimeManager};
use dam::utility_contexts::*;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Spec {
    pub cap: Option<usize>,
    pub lat: u64,
    pub rlat: u64,
    pub snd: usize,
    pub rcv: Option<usize>,
}
#[derive(Clone, Default, Debug)]
pub struct MCh {
    pub items: Vec<(u64, u64)>,
    pub deqt: Vec<u64>,
    pub sdone: bool,
    pub rdone: bool,
}
/// reference model of the channels
#[derive(Clone)]
pub struct Model {
    pub sp: Vec<Spec>,
    pub ch: Vec<MCh>,
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum M<T> {
    Ok(T),
    Closed,
    Blocked,
}
impl Model {
    pub fn new(sp: Vec<Spec>) -> Model {
        Model { ch: vec![MCh::default(); sp.len()], sp }
    }
    /// the sender's clock once there is room
    pub fn room(&self, c: usize, clock: u64) -> M<u64> {
        let (s, m) = (&self.sp[c], &self.ch[c]);
        match s.cap {
            None => M::Ok(clock),
            Some(cap) if m.items.len() < cap => M::Ok(clock),
            Some(cap) => {
                let k = m.items.len() - cap;
                if k < m.deqt.len() {
                    M::Ok(clock.max(m.deqt[k] + s.rlat))
                } else if m.rdone {
                    M::Closed
                } else {
                    M::Blocked
                }
            }
        }
    }
    pub fn enq(&mut self, c: usize, clock: &mut u64, dt: u64, val: u64) -> M<()> {
        if self.sp[c].rcv.is_none() {
            return M::Ok(());
        }
        match self.room(c, *clock) {
            M::Ok(t) => {
                *clock = t;
                let st = dt.max(t + self.sp[c].lat);
                self.ch[c].items.push((st, val));
                M::Ok(())
            }
            M::Closed => M::Closed,
            M::Blocked => M::Blocked,
        }
    }
    pub fn peek_next(&self, c: usize, clock: &mut u64) -> M<(u64, u64)> {
        let m = &self.ch[c];
        match m.items.get(m.deqt.len()) {
            Some(x) => {
                *clock = (*clock).max(x.0);
                M::Ok(*x)
            }
            None if m.sdone => M::Closed,
            None => M::Blocked,
        }
    }
    pub fn deq(&mut self, c: usize, clock: &mut u64) -> M<(u64, u64)> {
        let r = self.peek_next(c, clock);
        if let M::Ok(_) = r {
            self.ch[c].deqt.push(*clock);
        }
        r
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Inc(u64),
    Adv(u64),
    Wait(usize),
    Enq(usize, u64, u64),
    PeekNext(usize),
    Deq(usize),
    Peek(usize),
    Event(usize),
    DropS(usize),
}
#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    /// clock afterwards; None: unspecified (but finite)
    pub clk: Option<u64>,
    pub out: Option<(u64, u64)>,
    pub closed: bool,
    /// items dequeued before, for peeks
    pub d: usize,
}
pub struct Net {
    pub sp: Vec<Spec>,
    pub n: usize,
    pub scripts: Vec<Vec<Step>>,
    pub end: Vec<Option<u64>>,
    pub hist: Vec<Vec<(u64, u64)>>,
}
#[derive(Clone, Copy, Default)]
pub struct Bias {
    pub peek: bool,
    pub tight: bool,
    pub wait: bool,
    pub shape: Option<u64>,
}
fn cyclic(n: usize, sp: &[Spec]) -> Vec<bool> {
    // channel is on a cycle iff its sender is reachable from its receiver
    let mut reach = vec![vec![false; n]; n];
    for i in 0..n {
        reach[i][i] = true;
    }
    for _ in 0..n {
        for s in sp {
            if let Some(r) = s.rcv {
                for i in 0..n {
                    if reach[i][s.snd] {
                        reach[i][r] = true;
                    }
                }
            }
        }
    }
    sp.iter().map(|s| s.rcv.map(|r| reach[r][s.snd]).unwrap_or(false)).collect()
}
/// Generates a network with scripts that cannot deadlock; `infer` tells whether inference may be on.
pub fn generate(r: &mut R, b: Bias) -> (Net, bool) {
    let n = r.range(2, 4) as usize;
    let m = r.range(1, 5) as usize;
    // 0: acyclic, 1: every channel on a cycle, 2: anything (inference only when safe)
    let shape = b.shape.unwrap_or_else(|| r.below(4));
    let mut sp = vec![];
    for i in 0..m {
        let (snd, rcv) = match shape {
            0 => {
                let a = r.idx(n - 1);
                (a, Some(r.range(a as u64 + 1, n as u64 - 1) as usize))
            }
            1 => (i % n, Some((i + 1) % n)),
            _ => {
                let a = r.idx(n);
                let mut z = r.idx(n);
                if z == a && !r.chance(1, 6) {
                    z = (a + 1) % n;
                }
                (a, Some(z))
            }
        };
        let rcv = if r.chance(1, 14) && shape != 1 { None } else { rcv };
        let lat = if r.chance(1, 2) { 1 } else if r.chance(1, 8) { 1000 } else { r.range(1, 9) };
        let rlat = if r.chance(1, 2) { 1 } else if r.chance(1, 8) { 500 } else { r.range(1, 9) };
        let cap = if rcv.is_none() || (!b.tight && r.chance(1, 3)) { None } else { Some(r.range(1, if b.tight { 2 } else { 4 }) as usize) };
        sp.push(Spec { cap, lat, rlat, snd, rcv });
    }
    if shape == 1 {
        // close the ring
        let mut k = m;
        while k % n != 0 {
            sp.push(Spec { cap: None, lat: 1, rlat: 1, snd: k % n, rcv: Some((k + 1) % n) });
            k += 1;
        }
    }
    let cyc = cyclic(n, &sp);
    let all = cyc.iter().zip(&sp).all(|(c, s)| *c || s.rcv.is_none());
    let none = cyc.iter().all(|c| !c);
    let infer_ok = all || none || sp.iter().zip(&cyc).all(|(s, c)| *c || s.cap.is_none());
    let mut md = Model::new(sp.clone());
    let mut clk = vec![0u64; n];
    let mut ended = vec![false; n];
    let mut dropped = vec![false; sp.len()];
    let mut scripts: Vec<Vec<Step>> = vec![vec![]; n];
    let mut end: Vec<Option<u64>> = vec![None; n];
    let mut spoilt = vec![false; n];
    let total = r.range(4, 60);
    let mut serial = 0u64;
    let push = |s: &mut Vec<Step>, op, clk, out, closed, d| s.push(Step { op, clk, out, closed, d });
    for _ in 0..total {
        let c = r.idx(n);
        let kind = r.below(100);
        let mine_s: Vec<usize> = (0..sp.len()).filter(|i| sp[*i].snd == c && !dropped[*i]).collect();
        let mine_r: Vec<usize> = (0..sp.len()).filter(|i| sp[*i].rcv == Some(c)).collect();
        if kind < 12 || (mine_s.is_empty() && mine_r.is_empty()) {
            let k = if r.chance(1, 25) { 1 << 20 } else { r.below(6) };
            clk[c] += k;
            push(&mut scripts[c], Op::Inc(k), Some(clk[c]), None, false, 0);
        } else if kind < 20 {
            let t = if r.chance(1, 3) { clk[c].saturating_sub(r.below(4)) } else { clk[c] + r.below(12) };
            clk[c] = clk[c].max(t);
            push(&mut scripts[c], Op::Adv(t), Some(clk[c]), None, false, 0);
        } else if kind < 55 && !mine_s.is_empty() {
            let i = r.pick(&mine_s);
            if r.chance(1, if b.wait { 2 } else { 6 }) {
                if let (true, M::Ok(t)) = (sp[i].rcv.is_some(), md.room(i, clk[c])) {
                    clk[c] = t;
                    push(&mut scripts[c], Op::Wait(i), Some(t), None, false, 0);
                }
            } else {
                serial += 1;
                let dt = match r.below(5) {
                    0 => 0,
                    1 | 2 => clk[c],
                    3 => clk[c] + r.below(20),
                    _ => clk[c] + 1,
                };
                let (v, mut t) = ((i as u64) * 100_000 + serial, clk[c]);
                if let M::Ok(()) = md.enq(i, &mut t, dt, v) {
                    clk[c] = t;
                    push(&mut scripts[c], Op::Enq(i, dt, v), Some(t), None, false, 0);
                }
            }
        } else if !mine_r.is_empty() {
            let i = r.pick(&mine_r);
            let d = md.ch[i].deqt.len();
            let (mut t, s) = (clk[c], sp[i].snd);
            match r.below(if b.peek { 9 } else { 6 }) {
                0 => {
                    if let M::Ok(x) = md.peek_next(i, &mut t) {
                        clk[c] = t;
                        push(&mut scripts[c], Op::PeekNext(i), Some(t), Some(x), false, d);
                    }
                }
                1 | 6 | 7 | 8 => {
                    if all || clk[s] >= clk[c] || ended[s] {
                        let op = if r.chance(1, 2) { Op::Peek(i) } else { Op::Event(i) };
                        push(&mut scripts[c], op, Some(t), None, false, d);
                    }
                }
                _ => {
                    if let M::Ok(x) = md.deq(i, &mut t) {
                        clk[c] = t;
                        push(&mut scripts[c], Op::Deq(i), Some(t), Some(x), false, d);
                    }
                }
            }
        }
        if !mine_s.is_empty() && r.chance(1, 60) {
            let i = r.pick(&mine_s);
            if sp[i].rcv.is_some() {
                dropped[i] = true;
                md.ch[i].sdone = true;
                push(&mut scripts[c], Op::DropS(i), Some(clk[c]), None, false, 0);
            }
        }
    }
    // end the contexts one after another; once the other side is gone, operations report Closed
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.idx(i + 1));
    }
    for c in order {
        for i in 0..sp.len() {
            if sp[i].rcv == Some(c) && md.ch[i].sdone {
                while r.chance(3, 4) {
                    let mut t = clk[c];
                    let d = md.ch[i].deqt.len();
                    match md.deq(i, &mut t) {
                        M::Ok(x) => {
                            clk[c] = t;
                            push(&mut scripts[c], Op::Deq(i), if spoilt[c] { None } else { Some(t) }, if spoilt[c] { None } else { Some(x) }, false, d);
                            if spoilt[c] {
                                scripts[c].pop();
                                break;
                            }
                        }
                        _ => {
                            let op = if r.chance(1, 4) { Op::PeekNext(i) } else { Op::Deq(i) };
                            spoilt[c] = true;
                            push(&mut scripts[c], op, None, None, true, d);
                            break;
                        }
                    }
                }
            }
            if sp[i].snd == c && md.ch[i].rdone && !dropped[i] && sp[i].rcv.is_some() {
                if let M::Closed = md.room(i, clk[c]) {
                    if r.chance(1, 2) {
                        spoilt[c] = true;
                        let op = if r.chance(1, 3) { Op::Wait(i) } else { Op::Enq(i, clk[c], 7) };
                        push(&mut scripts[c], op, None, None, true, 0);
                    }
                }
            }
        }
        end[c] = if spoilt[c] { None } else { Some(clk[c]) };
        ended[c] = true;
        for i in 0..sp.len() {
            if sp[i].snd == c {
                md.ch[i].sdone = true;
            }
            if sp[i].rcv == Some(c) {
                md.ch[i].rdone = true;
            }
        }
    }
    let hist = md.ch.iter().map(|c| c.items.clone()).collect();
    (Net { sp, n, scripts, end, hist }, infer_ok)
}

pub fn make<'a, T: DAMType + 'a>(p: &mut ProgramBuilder<'a>, s: &Spec) -> (Sender<T>, Option<Receiver<T>>) {
    if s.rcv.is_none() {
        return (p.void(), None);
    }
    let (a, b) = match s.cap {
        Some(c) if s.lat == 1 && s.rlat == 1 => p.bounded(c),
        Some(c) => p.bounded_with_latency(c, s.lat, s.rlat),
        None if s.lat == 1 && s.rlat == 1 => p.unbounded(),
        None => p.unbounded_with_latency(s.lat, s.rlat),
    };
    (a, Some(b))
}
pub fn opts(infer: bool) -> InitializationOptions {
    InitializationOptionsBuilder::default().run_flavor_inference(infer).build().unwrap()
}
type Body = Box<dyn FnOnce(&mut TimeManager) + Send + Sync>;

fn check_peek(c: usize, k: usize, st: &Step, i: usize, hist: &[(u64, u64)], res: PeekResult<u64>, now: u64) {
    let next = hist.get(st.d);
    let bad = match (&res, next) {
        (PeekResult::Something(x), Some(h)) => x.time.is_infinite() || (x.time.time(), x.data) != *h,
        (PeekResult::Something(_), None) => true,
        (PeekResult::Nothing(t), nx) => t.is_infinite() || t.time() < now || nx.map(|h| h.0 <= t.time()).unwrap_or(false),
        (PeekResult::Closed, nx) => nx.is_some(),
    };
    if bad {
        note(format!("context {c} step {k} peek of channel {i} at clock {now}: {res:?}, but the next item is {next:?}"));
    }
}
/// Executes the network on the real crate.
pub fn execute(net: &Net, infer: bool, seed: u64) -> Result<(), String> {
    let mut p = ProgramBuilder::default();
    let (mut ss, mut rs) = (vec![], vec![]);
    for s in &net.sp {
        let (a, b) = make(&mut p, s);
        ss.push(Some(a));
        rs.push(b);
    }
    // A receiver whose context ended is dropped once the sender has done the enqueues that have to succeed.
    let left: Vec<usize> = (0..net.sp.len()).map(|i| net.scripts[net.sp[i].snd].iter().filter(|st| !st.closed && matches!(st.op, Op::Enq(j, ..) if j == i)).count()).collect();
    let park: Arc<Vec<Mutex<(usize, Option<Receiver<u64>>)>>> = Arc::new(left.into_iter().map(|l| Mutex::new((l, None))).collect());
    let mut bodies = vec![];
    for c in 0..net.n {
        let mut ctx: FunctionContext<Body> = FunctionContext::new();
        let mut my_s: Vec<Option<Sender<u64>>> = vec![];
        let mut my_r: Vec<Option<Receiver<u64>>> = vec![];
        for (i, s) in net.sp.iter().enumerate() {
            my_s.push(if s.snd == c {
                let x = ss[i].take().unwrap();
                if (seed ^ i as u64) & 1 == 0 { x.attach_sender(&ctx) } else { SendAdapter::<u32>::attach_sender(&x, &ctx) }
                Some(x)
            } else {
                None
            });
            my_r.push(if s.rcv == Some(c) {
                let x = rs[i].take().unwrap();
                if (seed ^ i as u64) & 2 == 0 { x.attach_receiver(&ctx) } else { RecvAdapter::<u128>::attach_receiver(&x, &ctx) }
                Some(x)
            } else {
                None
            });
        }
        let script = net.scripts[c].clone();
        let hist = net.hist.clone();
        let park = park.clone();
        let mut jr = R::new(seed ^ (c as u64) << 32);
        ctx.set_run(Box::new(move |t: &mut TimeManager| {
            for (k, st) in script.iter().enumerate() {
                jitter(&mut jr);
                crate::at(c, k);
                let before = t.tick();
                let adapt = jr.chance(1, 4);
                match &st.op {
                    Op::Inc(x) => t.incr_cycles(*x),
                    Op::Adv(x) => t.advance(Time::new(*x)),
                    Op::Wait(i) => {
                        let s = my_s[*i].as_ref().unwrap();
                        let r = if adapt { SendAdapter::<u32>::wait_until_available(s, t) } else { s.wait_until_available(t) };
                        if r.is_err() != st.closed {
                            note(format!("context {c} step {k} {:?}: {r:?}", st.op));
                        }
                    }
                    Op::Enq(i, dt, v) => {
                        let s = my_s[*i].as_ref().unwrap();
                        let r = if adapt {
                            SendAdapter::<u32>::enqueue(s, t, ChannelElement::new(Time::new(*dt), *v as u32))
                        } else {
                            s.enqueue(t, ChannelElement::new(Time::new(*dt), *v))
                        };
                        if r.is_err() != st.closed {
                            note(format!("context {c} step {k} {:?}: {r:?}", st.op));
                        }
                    }
                    Op::PeekNext(i) | Op::Deq(i) => {
                        let x = my_r[*i].as_ref().unwrap();
                        let pn = matches!(st.op, Op::PeekNext(_));
                        let got = match (pn, adapt) {
                            (true, false) => x.peek_next(t).ok().map(|e| (e.time, e.data)),
                            (true, true) => RecvAdapter::<u128>::peek_next(x, t).ok().map(|e| (e.time, e.data as u64)),
                            (false, false) => x.dequeue(t).ok().map(|e| (e.time, e.data)),
                            (false, true) => RecvAdapter::<u128>::dequeue(x, t).ok().map(|e| (e.time, e.data as u64)),
                        };
                        let want = st.out.map(|(a, b)| (Time::new(a), b));
                        if got != want {
                            note(format!("context {c} step {k} {:?}: got {got:?}, expected {want:?}", st.op));
                        }
                    }
                    Op::Peek(i) => {
                        let x = my_r[*i].as_ref().unwrap();
                        let res = if adapt {
                            match RecvAdapter::<u128>::peek(x) {
                                PeekResult::Something(e) => PeekResult::Something(ChannelElement::new(e.time, e.data as u64)),
                                PeekResult::Nothing(t) => PeekResult::Nothing(t),
                                PeekResult::Closed => PeekResult::Closed,
                            }
                        } else {
                            x.peek()
                        };
                        check_peek(c, k, st, *i, &hist[*i], res, before.time());
                    }
                    Op::Event(i) => {
                        let x = my_r[*i].as_ref().unwrap();
                        let h = hist[*i].get(st.d);
                        let ev = x.next_event();
                        let bad = match ev {
                            EventTime::Ready(t) => h.map(|h| Time::new(h.0) != t).unwrap_or(true),
                            EventTime::Nothing(t) => t.is_infinite() || t < before || h.map(|h| h.0 <= t.time()).unwrap_or(false),
                            EventTime::Closed => h.is_some(),
                        };
                        if bad {
                            note(format!("context {c} step {k} next_event of channel {i} at {before:?}: {ev:?}, but the next item is {h:?}"));
                        }
                    }
                    Op::DropS(i) => drop(my_s[*i].take()),
                }
                let now = t.tick();
                match st.clk {
                    Some(want) if now != Time::new(want) => {
                        note(format!("context {c} step {k} {:?}: clock is {now:?} instead of {want}", st.op));
                    }
                    None if now.is_infinite() || now < before => note(format!("context {c} step {k} {:?}: clock went from {before:?} to {now:?}", st.op)),
                    _ => {}
                }
                if let (Op::Enq(i, ..), false) = (&st.op, st.closed) {
                    let x = {
                        let mut g = park[*i].lock().unwrap();
                        g.0 = g.0.saturating_sub(1);
                        if g.0 == 0 { g.1.take() } else { None }
                    };
                    drop(x);
                }
            }
            crate::at(c, 9999);
            for (i, q) in my_r.iter_mut().enumerate() {
                let mut g = park[i].lock().unwrap();
                if g.0 > 0 && q.is_some() {
                    g.1 = q.take();
                }
            }
        }));
        bodies.push(ctx);
    }
    for b in bodies {
        p.add_child(b);
    }
    let e = p.initialize(opts(infer)).map_err(|e| format!("initialize failed: {e}"))?.run(RunOptions::default());
    if !e.passed() {
        return Err("the run reports a failure".into());
    }
    if net.end.iter().all(|x| x.is_some()) {
        let want = net.end.iter().map(|x| x.unwrap()).max();
        if e.elapsed_cycles() != want {
            return Err(format!("elapsed_cycles is {:?} instead of {want:?}", e.elapsed_cycles()));
        }
    }
    Ok(())
}
fn describe(net: &Net, infer: bool) -> String {
    let ops: Vec<String> = net.scripts.iter().enumerate().map(|(c, s)| format!("ctx{c}={:?}", s.iter().map(|x| (&x.op, x.clk, x.out)).collect::<Vec<_>>())).collect();
    format!("infer={infer} channels={:?} {}", net.sp, ops.join(" "))
}
pub fn go(r: &mut R, b: Bias) -> Res {
    let (net, infer_ok) = generate(r, b);
    let size: usize = net.scripts.iter().map(|s| s.len()).sum();
    let moved = net.hist.iter().any(|h| !h.is_empty());
    let seed = r.next();
    let first = r.chance(1, 2);
    for infer in [first, !first] {
        if infer && !infer_ok {
            continue;
        }
        crate::about(describe(&net, infer));
        for rep in 0..2 {
            execute(&net, infer, seed + rep).map_err(|e| format!("{e} :: {}", describe(&net, infer)))?;
            if !crate::NOTES.lock().unwrap().is_empty() {
                return Err(describe(&net, infer));
            }
        }
    }
    ok(size > 4 && moved, describe(&net, infer_ok))
}
pub fn chan(r: &mut R) -> Res {
    let b = Bias { peek: r.chance(1, 2), tight: r.chance(1, 2), wait: r.chance(1, 3), shape: None };
    go(r, b)
}
pub fn peek(r: &mut R) -> Res {
    go(r, Bias { peek: true, ..Default::default() })
}
pub fn back(r: &mut R) -> Res {
    let sh = if r.chance(1, 2) { Some(0) } else { None };
    go(r, Bias { tight: true, wait: true, shape: sh, ..Default::default() })
}
/// creation functions: latency, response latency, capacity and void arrive at the right place
pub fn wire(r: &mut R) -> Res {
    let (lat, rlat, cap) = (r.range(1, 40), r.range(1, 40), if r.chance(1, 3) { None } else { Some(r.range(1, 5) as usize) });
    let unit = r.chance(1, 3);
    let (lat, rlat) = if unit { (1, 1) } else { (lat, if lat == rlat { rlat + 1 } else { rlat }) };
    let k = r.range(1, 12);
    let sp = Spec { cap, lat, rlat, snd: 0, rcv: Some(1) };
    // sender: k enqueues; receiver: starts at time z and dequeues them one cycle apart
    let z = r.below(60);
    let mut md = Model::new(vec![sp.clone()]);
    let (mut cs, mut cr, mut a, mut b) = (0u64, z, vec![], vec![Step { op: Op::Adv(z), clk: Some(z), out: None, closed: false, d: 0 }]);
    let (mut i, mut j) = (0, 0);
    while j < k {
        if i < k {
            if let M::Ok(()) = md.enq(0, &mut cs, 0, i) {
                a.push(Step { op: Op::Enq(0, 0, i), clk: Some(cs), out: None, closed: false, d: 0 });
                i += 1;
                continue;
            }
        }
        if let M::Ok(x) = md.deq(0, &mut cr) {
            b.push(Step { op: Op::Deq(0), clk: Some(cr), out: Some(x), closed: false, d: 0 });
            j += 1;
        }
    }
    let net = Net { sp: vec![sp], n: 2, scripts: vec![a, b], end: vec![Some(cs), Some(cr)], hist: vec![md.ch[0].items.clone()] };
    for infer in [false, true] {
        execute(&net, infer, r.next()).map_err(|e| format!("{e} :: {}", describe(&net, infer)))?;
    }
    ok(true, describe(&net, true))
}

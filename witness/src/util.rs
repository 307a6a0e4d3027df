//! Utility contexts and the PCU, compared with processes run over the channel model.
use crate::net::{make, opts, Model, Spec, M};
use crate::{jitter, ok, Res, R};
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::TimeManager;
use dam::templates::{ops::*, pcu::*};
use dam::utility_contexts::*;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

type Body = Box<dyn FnOnce(&mut TimeManager) + Send + Sync>;
#[derive(Clone, Debug)]
pub struct Stage {
    op: usize,
    forward: Vec<(usize, usize)>,
    prev: Vec<usize>,
    out: Vec<usize>,
}
#[derive(Clone, Debug)]
pub enum P {
    Gen { ch: usize, vals: VecDeque<u64> },
    Trace { ch: usize, items: VecDeque<(u64, u64)> },
    Bcast { inp: usize, outs: Vec<usize> },
    Consumer { ch: usize },
    /// increments its clock by the given amounts between dequeues (cyclically), recording
    Sink { ch: usize, incs: Vec<u64> },
    Checker { ch: usize, want: VecDeque<u64>, approx: Option<u64> },
    Pcu { ins: Vec<usize>, outs: Vec<usize>, depth: usize, nreg: usize, stages: Vec<Stage> },
}
#[derive(Clone, Default)]
struct St {
    clk: u64,
    fin: bool,
    fail: bool,
    dt: Option<u64>,
    held: Option<u64>,
    at: usize,
    rec: Vec<(u64, u64, u64)>,
    regs: Vec<Vec<i64>>,
    first: bool,
}
fn alu(op: usize, a: i64, b: i64) -> i64 {
    match op {
        0 => a + b,
        1 => a - b,
        _ => a * b,
    }
}
impl P {
    fn ins(&self) -> Vec<usize> {
        match self {
            P::Bcast { inp, .. } => vec![*inp],
            P::Consumer { ch } | P::Sink { ch, .. } | P::Checker { ch, .. } => vec![*ch],
            P::Pcu { ins, .. } => ins.clone(),
            _ => vec![],
        }
    }
    fn outs(&self) -> Vec<usize> {
        match self {
            P::Gen { ch, .. } | P::Trace { ch, .. } => vec![*ch],
            P::Bcast { outs, .. } | P::Pcu { outs, .. } => outs.clone(),
            _ => vec![],
        }
    }
    /// one step; false when nothing is possible
    fn step(&mut self, s: &mut St, m: &mut Model) -> bool {
        match self {
            P::Gen { ch, vals } => {
                let Some(v) = vals.front().copied() else { s.fin = true; return true };
                let dt = *s.dt.get_or_insert(s.clk + 1);
                match m.enq(*ch, &mut s.clk, dt, v) {
                    M::Ok(()) => { s.clk += 1; s.dt = None; vals.pop_front(); }
                    M::Closed => { s.fin = true; s.fail = true }
                    M::Blocked => return false,
                }
                true
            }
            P::Trace { ch, items } => {
                let Some((v, t)) = items.front().copied() else { s.fin = true; return true };
                if s.dt.is_none() {
                    s.clk = s.clk.max(t.saturating_sub(1));
                    s.dt = Some(s.clk + 1);
                }
                match m.enq(*ch, &mut s.clk, s.dt.unwrap(), v) {
                    M::Ok(()) => { s.dt = None; items.pop_front(); }
                    M::Closed => { s.fin = true; s.fail = true }
                    M::Blocked => return false,
                }
                true
            }
            P::Bcast { inp, outs } => {
                if s.held.is_none() {
                    match m.deq(*inp, &mut s.clk) {
                        M::Ok(x) => { s.held = Some(x.1); s.at = 0; }
                        M::Closed => s.fin = true,
                        M::Blocked => return false,
                    }
                    return true;
                }
                let n = outs.len();
                if s.at < n {
                    match m.sp[outs[s.at]].rcv.map(|_| m.room(outs[s.at], s.clk)).unwrap_or(M::Ok(s.clk)) {
                        M::Ok(t) => { s.clk = t; s.at += 1; }
                        M::Closed => { s.fin = true; s.fail = true }
                        M::Blocked => return false,
                    }
                    return true;
                }
                let dt = s.clk + 1;
                for o in outs.iter() {
                    m.enq(*o, &mut s.clk, dt, s.held.unwrap());
                }
                s.held = None;
                true
            }
            P::Consumer { ch } => match m.deq(*ch, &mut s.clk) {
                M::Ok(_) => { s.clk += 1; true }
                M::Closed => { s.fin = true; true }
                M::Blocked => false,
            },
            P::Sink { ch, incs } => match m.deq(*ch, &mut s.clk) {
                M::Ok(x) => {
                    s.rec.push((x.0, x.1, s.clk));
                    s.clk += incs[s.rec.len() % incs.len()];
                    true
                }
                M::Closed => { s.fin = true; true }
                M::Blocked => false,
            },
            P::Checker { ch, want, approx } => {
                let Some(w) = want.front().copied() else { s.fin = true; return true };
                match m.deq(*ch, &mut s.clk) {
                    M::Ok(x) => {
                        want.pop_front();
                        if x.1.abs_diff(w) > approx.unwrap_or(0) {
                            s.fail = true;
                            s.fin = true;
                        }
                        true
                    }
                    M::Closed => { s.fin = true; s.fail = true; true }
                    M::Blocked => false,
                }
            }
            P::Pcu { ins, outs, depth, nreg, stages } => {
                if !s.first {
                    s.first = true;
                    s.regs = vec![vec![0; *nreg]; *depth + 1];
                }
                if s.held.is_none() {
                    // all inputs have to be there (or one is closed)
                    let mut t = s.clk;
                    let mut closed = false;
                    for i in ins.iter() {
                        match m.peek_next(*i, &mut t) {
                            M::Ok(_) => {}
                            M::Closed => closed = true,
                            M::Blocked => return false,
                        }
                    }
                    if closed {
                        s.clk = t;
                        s.fin = true;
                        return true;
                    }
                    s.clk = t;
                    for (k, i) in ins.iter().enumerate() {
                        if let M::Ok(x) = m.deq(*i, &mut s.clk) {
                            s.regs[0][k] = x.1 as i64;
                        }
                    }
                    for k in 0..*depth {
                        if let Some(st) = stages.get(k) {
                            let mut nx = s.regs[k + 1].clone();
                            let p = &s.regs[k];
                            let v = alu(st.op, p[st.prev[0]], p[st.prev[1]]);
                            for o in &st.out {
                                nx[*o] = v;
                            }
                            for (a, b) in &st.forward {
                                nx[*b] = p[*a];
                            }
                            s.regs[k + 1] = nx;
                        } else {
                            s.regs[k + 1] = s.regs[k].clone();
                        }
                    }
                    s.held = Some(s.clk + *depth as u64);
                    s.at = 0;
                    return true;
                }
                if s.at < outs.len() {
                    let v = s.regs[*depth][s.at] as u64;
                    match m.enq(outs[s.at], &mut s.clk, s.held.unwrap(), v) {
                        M::Ok(()) => s.at += 1,
                        M::Closed => { s.fin = true; s.fail = true }
                        M::Blocked => return false,
                    }
                    return true;
                }
                s.held = None;
                s.clk += 1;
                true
            }
        }
    }
}
type Rec = Arc<Mutex<Vec<(u64, u64, u64)>>>;
fn ev(x: &ChannelElement<i64>) -> (u64, u64) {
    (if x.time.is_infinite() { u64::MAX } else { x.time.time() }, x.data as u64)
}
pub fn exec(r: &mut R, sp: &[Spec], ps: &[P], infer: bool) -> Result<bool, String> {
    // reference
    let mut m = Model::new(sp.to_vec());
    let mut q: Vec<P> = ps.to_vec();
    let mut st: Vec<St> = vec![St::default(); ps.len()];
    loop {
        let mut moved = false;
        for i in 0..q.len() {
            while !st[i].fin && q[i].step(&mut st[i], &mut m) {
                moved = true;
                if st[i].fin {
                    for o in q[i].outs() {
                        m.ch[o].sdone = true;
                    }
                    for o in q[i].ins() {
                        m.ch[o].rdone = true;
                    }
                }
            }
        }
        if !moved {
            break;
        }
    }
    if st.iter().any(|s| !s.fin) {
        return Ok(false);
    }
    // the real thing
    let mut p = ProgramBuilder::default();
    let (mut ss, mut rs): (Vec<Option<Sender<i64>>>, Vec<Option<Receiver<i64>>>) = (vec![], vec![]);
    for s in sp {
        let (a, b) = makei(&mut p, s);
        ss.push(Some(a));
        rs.push(b);
    }
    let mut recs: Vec<Rec> = vec![];
    for (i, x) in ps.iter().enumerate() {
        let rec: Rec = Default::default();
        recs.push(rec.clone());
        let mut jr = R::new(r.next() ^ i as u64);
        match x.clone() {
            P::Gen { ch, vals } => {
                p.add_child(GeneratorContext::new(move || vals.into_iter().map(move |v| { jitter(&mut jr); v as i64 }), ss[ch].take().unwrap()))
            }
            P::Trace { ch, items } => {
                let it = move || items.into_iter().map(move |(v, t)| { jitter(&mut jr); (v as i64, t) });
                p.add_child(TraceContext::new(it, ss[ch].take().unwrap()))
            }
            P::Bcast { inp, outs } => {
                let mut b = BroadcastContext::new(rs[inp].take().unwrap());
                for o in outs {
                    b.add_target(ss[o].take().unwrap());
                }
                p.add_child(b)
            }
            P::Consumer { ch } => p.add_child(ConsumerContext::new(rs[ch].take().unwrap())),
            P::Checker { ch, want, .. } => {
                p.add_child(CheckerContext::new(move || want.into_iter().map(move |v| { jitter(&mut jr); v as i64 }), rs[ch].take().unwrap()))
            }
            P::Sink { ch, incs } => {
                let mut f: FunctionContext<Body> = FunctionContext::new();
                let rc = rs[ch].take().unwrap();
                rc.attach_receiver(&f);
                f.set_run(Box::new(move |t| loop {
                    jitter(&mut jr);
                    let Ok(e) = rc.dequeue(t) else { break };
                    let (a, b) = ev(&e);
                    let mut g = rec.lock().unwrap();
                    g.push((a, b, t.tick().time()));
                    t.incr_cycles(incs[g.len() % incs.len()]);
                }));
                p.add_child(f)
            }
            P::Pcu { ins, outs, depth, nreg, stages } => {
                let mut c = PCU::<i64>::new(PCUConfig { pipeline_depth: depth, num_registers: nreg }, PCU::<i64>::READ_ALL_INPUTS, PCU::<i64>::WRITE_ALL_RESULTS);
                for s in stages {
                    let op = match s.op {
                        0 => ALUAddOp::<i64>(),
                        1 => ALUSubOp::<i64>(),
                        _ => ALUMulOp::<i64>(),
                    };
                    c.push_stage(PipelineStage { op, forward: s.forward, prev_register_ids: s.prev, next_register_ids: vec![], output_register_ids: s.out });
                }
                for i in ins {
                    c.add_input_channel(rs[i].take().unwrap());
                }
                for o in outs {
                    c.add_output_channel(ss[o].take().unwrap());
                }
                p.add_child(c)
            }
        }
    }
    let e = p.initialize(opts(infer)).map_err(|e| format!("initialize failed: {e}"))?.run(RunOptions::default());
    for (i, s) in st.iter().enumerate() {
        let got = recs[i].lock().unwrap();
        if *got != s.rec {
            return Err(format!("process {i} received (stamp, value, clock) {:?}, expected {:?}", got, s.rec));
        }
    }
    let bad = st.iter().filter(|s| s.fail).count();
    let nf = e.run_failures(|f| f.len());
    if e.passed() != (bad == 0) || nf != bad {
        return Err(format!("{bad} processes should fail, passed={} failures={nf}", e.passed()));
    }
    // receivers of closed channels may look further ahead, so only the others' clocks are exact
    let exact = ps.iter().all(|p| matches!(p, P::Gen { .. } | P::Trace { .. } | P::Checker { .. }));
    let want = st.iter().filter(|s| !s.fail).map(|s| s.clk).max();
    if exact && e.elapsed_cycles() != want {
        return Err(format!("elapsed_cycles is {:?}, expected {want:?}", e.elapsed_cycles()));
    }
    if !exact && bad == 0 && e.elapsed_cycles() < want {
        return Err(format!("elapsed_cycles is {:?}, expected at least {want:?}", e.elapsed_cycles()));
    }
    Ok(true)
}
fn makei<'a>(p: &mut ProgramBuilder<'a>, s: &Spec) -> (Sender<i64>, Option<Receiver<i64>>) {
    make(p, s)
}
fn chan(r: &mut R, snd: usize, rcv: Option<usize>) -> Spec {
    let lat = if r.chance(1, 2) { 1 } else { r.range(1, 7) };
    let rlat = if r.chance(1, 2) { 1 } else { r.range(1, 7) };
    Spec { cap: if r.chance(1, 3) || rcv.is_none() { None } else { Some(r.range(1, 4) as usize) }, lat, rlat, snd, rcv }
}
fn both(r: &mut R, sp: Vec<Spec>, ps: Vec<P>) -> Res {
    let d = format!("channels {sp:?} processes {ps:?}");
    let mut done = false;
    for k in 0..3 {
        let infer = (k % 2 == 0) ^ r.chance(1, 2);
        crate::about(format!("infer={infer} {d}"));
        done = exec(r, &sp, &ps, infer).map_err(|e| format!("{e} :: infer={infer} {d}"))?;
        if !crate::NOTES.lock().unwrap().is_empty() {
            return Err(format!("infer={infer} {d}"));
        }
    }
    ok(done, d)
}
fn source(r: &mut R, ch: usize, n: u64) -> P {
    if r.chance(1, 2) {
        P::Gen { ch, vals: (0..n).map(|_| r.range(1, 10)).collect() }
    } else {
        let mut t = 0;
        P::Trace { ch, items: (0..n).map(|_| { t = if r.chance(1, 6) { t / 2 } else { t + r.below(6) }; (r.range(1, 10), t) }).collect() }
    }
}
fn sink(r: &mut R, ch: usize) -> P {
    let k = r.range(1, 4);
    P::Sink { ch, incs: (0..k).map(|_| if r.chance(1, 8) { 60 } else { r.below(5) }).collect() }
}
pub fn gen(r: &mut R) -> Res {
    let n = r.below(25);
    let sp = vec![chan(r, 0, Some(1))];
    let ps = vec![source(r, 0, n), sink(r, 0)];
    both(r, sp, ps)
}
pub fn consume(r: &mut R) -> Res {
    let n = r.below(25);
    let mut sp = vec![chan(r, 0, Some(1))];
    sp[0].cap = Some(r.range(1, 2) as usize);
    // a second channel shows how far the generator got
    let ps = vec![source(r, 0, n), P::Consumer { ch: 0 }];
    both(r, sp, ps)
}
pub fn bcast(r: &mut R) -> Res {
    let (n, k) = (r.below(20), r.below(4) as usize);
    let mut sp = vec![chan(r, 0, Some(1))];
    let mut ps = vec![source(r, 0, n), P::Bcast { inp: 0, outs: (1..=k).collect() }];
    for i in 0..k {
        let void = r.chance(1, 8);
        sp.push(chan(r, 1, if void { None } else { Some(2 + i) }));
        if !void {
            ps.push(sink(r, i + 1));
        }
    }
    both(r, sp, ps)
}
pub fn pcu(r: &mut R) -> Res {
    let (ni, no) = (r.range(1, 3) as usize, r.range(0, 2) as usize);
    let depth = r.range(0, 3) as usize;
    let nreg = (ni.max(no).max(2)) + r.below(2) as usize;
    let ns = r.below(depth as u64 + 1) as usize;
    let stages: Vec<Stage> = (0..ns)
        .map(|_| {
            let mut out: Vec<usize> = vec![r.idx(nreg)];
            out.truncate(1);
            let nf = r.below(3);
            Stage { op: r.idx(3), forward: (0..nf).map(|_| (r.idx(nreg), r.idx(nreg))).collect(), prev: vec![r.idx(nreg), r.idx(nreg)], out }
        })
        .collect();
    let (mut sp, mut ps) = (vec![], vec![]);
    let n = r.below(16);
    for i in 0..ni {
        sp.push(chan(r, i + 1, Some(0)));
        let m = if r.chance(1, 8) { r.below(n + 1) } else { n };
        // senders must not depend on how soon a finished PCU is noticed
        if m != n || r.chance(1, 3) {
            sp[i].cap = None;
        }
        ps.push(source(r, i, m));
    }
    let uneven = ps.iter().any(|p| match p { P::Gen { vals, .. } => vals.len(), P::Trace { items, .. } => items.len(), _ => 0 } as u64 != n);
    if uneven {
        // the PCU stops early, while a sender still has room: only channels whose sender cannot notice
        return ok(false, "uneven".into());
    }
    let ins: Vec<usize> = (0..ni).collect();
    let outs: Vec<usize> = (ni..ni + no).collect();
    for k in 0..no {
        sp.push(chan(r, 0, Some(1 + ni + k)));
    }
    ps.push(P::Pcu { ins, outs: outs.clone(), depth, nreg, stages });
    for o in outs {
        ps.push(sink(r, o));
    }
    both(r, sp, ps)
}
pub fn check(r: &mut R) -> Res {
    if r.chance(1, 2) {
        return approx(r);
    }
    let n = r.below(20);
    let sp = vec![Spec { cap: None, ..chan(r, 0, Some(1)) }];
    let src = source(r, 0, n);
    let mut want: VecDeque<u64> = match &src {
        P::Gen { vals, .. } => vals.clone(),
        P::Trace { items, .. } => items.iter().map(|x| x.0).collect(),
        _ => unreachable!(),
    };
    let f = r.below(4);
    if f == 1 && n > 0 {
        // a wrong value at the end, so that the generator is not stopped early
        let k = want.len() - 1;
        want[k] += r.range(1, 3);
    } else if f == 2 {
        want.push_back(3);
    }
    both(r, sp, vec![src, P::Checker { ch: 0, want, approx: None }])
}
/// the approximate checker panics in run_falliable, which ends the program: only its verdict is compared
fn approx(r: &mut R) -> Res {
    let n = r.range(1, 15) as usize;
    let vals: Vec<i64> = (0..n).map(|_| r.below(50) as i64).collect();
    let tol = r.below(4) as i64;
    let mut want = vals.clone();
    let mut fail = false;
    for w in want.iter_mut() {
        *w += r.below(2 * tol as u64 + 1) as i64 - tol;
    }
    let f = r.below(4);
    if f == 1 {
        let k = n - 1;
        want[k] = vals[k] + tol + r.range(1, 3) as i64;
        fail = true;
    }
    let short = f == 2;
    if short {
        want.push(1);
    }
    let d = format!("values {vals:?} expected {want:?} tolerance {tol}");
    let mut p = ProgramBuilder::default();
    let (s, q) = p.unbounded::<i64>();
    let v2 = vals.clone();
    p.add_child(GeneratorContext::new(move || v2.into_iter(), s));
    let w2 = want.clone();
    // the checker function is not symmetric: the expected value comes first
    p.add_child(ApproxCheckerContext::new(move || w2.into_iter(), q, move |e: &i64, g: &i64| (*e - *g).abs() <= tol && *e >= 0 - tol));
    let i = p.initialize(opts(r.chance(1, 2))).map_err(|e| e.to_string())?;
    let res = crate::misc::quiet(move || i.run(RunOptions::default()).passed());
    let passed = res == Some(true);
    if passed != !(fail || short) {
        return Err(format!("the approximate checker's verdict is {res:?} for {d}"));
    }
    ok(true, d)
}

//! Datastore, PMU and DRAM against references.
use crate::misc::quiet;
use crate::net::opts;
use crate::{jitter, ok, Res, R};
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{Time, TimeManager};
use dam::templates::datastore::{Behavior, Datastore};
use dam::templates::dram::*;
use dam::templates::pmu::*;
use dam::utility_contexts::*;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

type Body = Box<dyn FnOnce(&mut TimeManager) + Send + Sync>;
pub fn store(r: &mut R) -> Res {
    let cap = r.range(1, 4) as usize;
    let b = Behavior { mod_address: r.chance(1, 2), use_default_value: r.chance(1, 2) };
    let ds = Datastore::<u32>::new(cap, b);
    let mut hist: Vec<Vec<(u64, u32)>> = vec![vec![]; cap];
    let mut d = format!("capacity {cap} {b:?}:");
    for _ in 0..r.range(1, 25) {
        let a = if r.chance(1, 5) { r.idx(3 * cap) } else { r.idx(cap) };
        let slot = if a < cap { Some(a) } else if b.mod_address { Some(a % cap) } else { None };
        let t = r.below(14);
        if r.chance(1, 2) {
            let v = r.range(1, 1000) as u32;
            let t = match slot.and_then(|s| hist[s].last()) {
                Some(l) if r.chance(3, 4) => l.0 + r.range(1, 3),
                _ => t,
            };
            let got = quiet(|| ds.write(a, v, Time::new(t)));
            let fine = slot.map(|s| hist[s].last().map(|l| l.0 < t).unwrap_or(true)).unwrap_or(false);
            d += &format!(" write({a},{v},{t})={fine}");
            if got.is_some() != fine {
                return Err(format!("the last write should be accepted: {fine}, but it is accepted: {} :: {d}", got.is_some()));
            }
            if fine {
                hist[slot.unwrap()].push((t, v));
            } else {
                // a refused write poisons the slot's lock: stop here
                return ok(true, d);
            }
        } else {
            let want = slot.and_then(|s| hist[s].iter().filter(|x| x.0 <= t).last().map(|x| x.1).or(if b.use_default_value { Some(0) } else { None }));
            let got = quiet(|| ds.read(a, Time::new(t)));
            d += &format!(" read({a},{t})={got:?}");
            if got != want {
                return Err(format!("the last read should give {want:?} :: {d}"));
            }
        }
    }
    ok(true, d)
}
/// a context sending the given (value, stamp) pairs, one after another
fn feed(p: &mut ProgramBuilder, r: &mut R, s: Sender<u16>, items: Vec<(u16, u64)>) {
    let mut f: FunctionContext<Body> = FunctionContext::new();
    s.attach_sender(&f);
    let mut jr = R::new(r.next());
    f.set_run(Box::new(move |t| {
        for (v, st) in items {
            jitter(&mut jr);
            // latency 1
            t.advance(Time::new(st - 1));
            let _ = s.enqueue(t, ChannelElement::new(Time::new(st), v));
        }
        jitter(&mut jr);
    }));
    p.add_child(f);
}
type Out = Arc<Mutex<Vec<(u64, u16)>>>;
fn collect<T: DAMType + Into<u16> + 'static>(p: &mut ProgramBuilder, q: Receiver<T>) -> Out {
    let o: Out = Default::default();
    let o2 = o.clone();
    let mut f: FunctionContext<Body> = FunctionContext::new();
    q.attach_receiver(&f);
    f.set_run(Box::new(move |t| {
        while let Ok(e) = q.dequeue(t) {
            o2.lock().unwrap().push((e.time.time(), e.data.into()));
        }
    }));
    p.add_child(f);
    o
}
fn stamps(r: &mut R, n: usize, gap: u64) -> Vec<u64> {
    let mut t = r.range(1, 1 + gap);
    (0..n).map(|_| { let x = t; t += r.below(gap + 1); x }).collect()
}
/// service order: always the bundle whose next request is complete first (lowest index on ties), one per cycle
fn serve(reqs: &[Vec<u64>]) -> Vec<Vec<u64>> {
    let mut at = vec![0; reqs.len()];
    let mut out = vec![vec![]; reqs.len()];
    let mut clk = 0;
    loop {
        let next = (0..reqs.len()).filter(|i| at[*i] < reqs[*i].len()).map(|i| (reqs[i][at[i]].max(clk), reqs[i][at[i]], i)).min_by_key(|x| (x.1, x.2));
        let Some((t, _, i)) = next else { return out };
        out[i].push(t);
        at[i] += 1;
        clk = t + 1;
    }
}
pub fn pmu(r: &mut R) -> Res {
    let cap = r.range(1, 4) as usize;
    let b = Behavior { mod_address: r.chance(1, 2), use_default_value: true };
    let (nw, nr) = (r.below(3) as usize, r.below(3) as usize);
    let mut p = ProgramBuilder::default();
    let mut pmu = PMU::<u16, u16, u16>::new(cap, b);
    let gap = r.range(0, 5);
    let amax = if b.mod_address { 2 * cap } else { cap };
    let (mut wr, mut acks, mut rd, mut resps, mut lats, mut rlats) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    let mut serial = 0u16;
    let mut extra = false;
    for _ in 0..nw {
        let n = r.below(12) as usize;
        let (sa, sd) = (stamps(r, n, gap), stamps(r, n, gap));
        let addrs: Vec<u16> = (0..n).map(|_| r.idx(amax) as u16).collect();
        let vals: Vec<u16> = (0..n).map(|_| { serial += 1; serial }).collect();
        let lat = r.range(1, 4);
        let ((a1, a2), (d1, d2), (k1, k2)) = (p.unbounded(), p.unbounded(), p.unbounded_with_latency(lat, 1));
        let mut fa: Vec<(u16, u64)> = addrs.iter().copied().zip(sa.iter().copied()).collect();
        let mut fd: Vec<(u16, u64)> = vals.iter().copied().zip(sd.iter().copied()).collect();
        if nw == 1 && r.chance(1, 4) {
            // one stream is longer than the other: the rest is never used
            extra = true;
            let f = if r.chance(1, 2) { &mut fa } else { &mut fd };
            let t = f.last().map(|x| x.1).unwrap_or(1) + r.below(9);
            f.push((0, t));
        }
        feed(&mut p, r, a1, fa);
        feed(&mut p, r, d1, fd);
        acks.push(collect::<u16>(&mut p, k2));
        pmu.add_writer(PMUWriteBundle { addr: a2, data: d2, ack: k1 });
        let ready: Vec<u64> = sa.iter().zip(&sd).map(|(x, y)| *x.max(y)).collect();
        wr.push((ready, addrs, vals));
        lats.push(lat);
    }
    for _ in 0..nr {
        let n = r.below(12) as usize;
        let sa = stamps(r, n, gap);
        let addrs: Vec<u16> = (0..n).map(|_| r.idx(amax) as u16).collect();
        let lat = r.range(1, 4);
        let ((a1, a2), (k1, k2)) = (p.unbounded(), p.unbounded_with_latency(lat, 1));
        feed(&mut p, r, a1, addrs.iter().copied().zip(sa.iter().copied()).collect());
        resps.push(collect::<u16>(&mut p, k2));
        pmu.add_reader(PMUReadBundle { addr: a2, resp: k1 });
        rd.push((sa, addrs));
        rlats.push(lat);
    }
    let infer = r.chance(1, 2);
    let d = format!("infer={infer} cap={cap} {b:?} writers(ready, addr, value)={wr:?} readers(ready, addr)={rd:?} extra={extra}");
    crate::about(d.clone());
    p.add_child(pmu);
    let e = p.initialize(opts(infer)).map_err(|e| e.to_string())?.run(RunOptions::default());
    if !e.passed() {
        return Err(format!("the run fails :: {d}"));
    }
    let wt = serve(&wr.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    let rt = serve(&rd.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    let mut hist: Vec<Vec<(u64, u16)>> = vec![vec![]; cap];
    for (i, ts) in wt.iter().enumerate() {
        let want: Vec<u64> = ts.iter().map(|t| t + lats[i]).collect();
        let got: Vec<u64> = acks[i].lock().unwrap().iter().map(|x| x.0).collect();
        if got != want {
            return Err(format!("writer {i} is acknowledged at {got:?}, expected {want:?} :: {d}"));
        }
        for (k, t) in ts.iter().enumerate() {
            hist[wr[i].1[k] as usize % cap].push((*t, wr[i].2[k]));
        }
    }
    for h in hist.iter_mut() {
        h.sort();
    }
    for (i, ts) in rt.iter().enumerate() {
        let want: Vec<u64> = ts.iter().map(|t| t + rlats[i]).collect();
        let got = resps[i].lock().unwrap().clone();
        if got.iter().map(|x| x.0).collect::<Vec<_>>() != want {
            return Err(format!("reader {i} is answered at {got:?}, expected {want:?} :: {d}"));
        }
        for (k, t) in ts.iter().enumerate() {
            let h = &hist[rd[i].1[k] as usize % cap];
            let upto = |lim: u64| h.iter().filter(|x| x.0 < lim).last().map(|x| x.1).unwrap_or(0);
            // a write in the very cycle of the read may or may not be seen
            let allowed = [upto(*t), upto(*t + 1)];
            if !allowed.contains(&got[k].1) {
                return Err(format!("reader {i} reads {} at time {t} from address {}, whose history is {h:?} :: {d}", got[k].1, rd[i].1[k]));
            }
        }
    }
    ok(nw > 0 && nr > 0, d)
}

#[derive(Clone, Debug)]
enum Rq {
    W { a: Vec<(u16, u64)>, s: Vec<(u16, u64)>, d: Vec<(u16, u64)> },
    R { a: Vec<(u16, u64)>, s: Vec<(u16, u64)> },
}
pub fn dram(r: &mut R) -> Res {
    let cap = r.range(2, 8) as usize;
    let (num, bw, lat) = (r.range(1, 3) as usize, r.range(1, 40) as usize, r.below(20));
    let b = Behavior { mod_address: r.chance(1, 4), use_default_value: true };
    let mut dr = DRAM::<u16, u16, u16>::new(DRAMConfig::verif_new(num, bw, Time::new(lat), cap), b);
    let fill = r.chance(1, 2);
    let mut mem: Vec<Vec<(u64, u16)>> = vec![vec![]; cap];
    if fill {
        dr.fill(|i| 500 + i as u16);
        for (i, m) in mem.iter_mut().enumerate() {
            m.push((0, 500 + i as u16));
        }
    }
    let mut p = ProgramBuilder::default();
    let n = r.range(1, 3) as usize;
    let (mut rq, mut outs, mut olat) = (vec![], vec![], vec![]);
    let gap = r.range(0, 30);
    let mut serial = 0u16;
    for _ in 0..n {
        let k = r.below(5) as usize;
        let (sa, ss) = (stamps(r, k, gap), stamps(r, k, gap));
        let mut addr = vec![];
        let mut size = vec![];
        let mut data = vec![];
        let w = r.chance(1, 2);
        let mut dt = 1;
        for i in 0..k {
            let sz = r.range(w as u64, if b.mod_address && !w { cap as u64 + 2 } else { (cap as u64).min(4) });
            let a = if b.mod_address { r.below(2 * cap as u64) } else { r.below(cap as u64 - sz.min(cap as u64) + 1) };
            addr.push((a as u16, sa[i]));
            size.push((sz as u16, ss[i]));
            if w {
                for _ in 0..sz {
                    dt += r.below(gap / 2 + 2);
                    serial += 1;
                    data.push((serial, dt));
                }
            }
        }
        let l = r.range(1, 4);
        let ((a1, a2), (s1, s2), (o1, o2)) = (p.unbounded(), p.unbounded(), p.unbounded_with_latency(l, 1));
        feed(&mut p, r, a1, addr.clone());
        feed(&mut p, r, s1, size.clone());
        olat.push(l);
        outs.push(collect::<u16>(&mut p, o2));
        if w {
            let (d1, d2) = p.unbounded();
            feed(&mut p, r, d1, data.clone());
            dr.add_writer(DRAMWriteBundle::verif_new(a2, s2, d2, o1));
            rq.push(Rq::W { a: addr, s: size, d: data });
        } else {
            dr.add_reader(DRAMReadBundle::verif_new(a2, s2, o1));
            rq.push(Rq::R { a: addr, s: size });
        }
    }
    let infer = r.chance(1, 2);
    let desc = format!("infer={infer} capacity={cap} simultaneous={num} bandwidth={bw} latency={lat} filled={fill} {b:?} requests={rq:?} output latencies={olat:?}");
    // reference
    let mut left: Vec<(VecDeque<(u16, u64)>, VecDeque<(u16, u64)>, VecDeque<(u16, u64)>)> = rq
        .iter()
        .map(|x| match x {
            Rq::W { a, s, d } => (a.clone().into(), s.clone().into(), d.clone().into()),
            Rq::R { a, s } => (a.clone().into(), s.clone().into(), VecDeque::new()),
        })
        .collect();
    let mut want: Vec<Vec<(u64, u16)>> = vec![vec![]; n];
    let mut win: VecDeque<u64> = VecDeque::new();
    let mut clk = 0u64;
    loop {
        if win.len() == num {
            clk = clk.max(win.pop_front().unwrap());
        }
        let rdy = |i: usize| -> Option<u64> {
            let x = &left[i];
            let mut t = x.0.front()?.1.max(x.1.front()?.1);
            if let Rq::W { .. } = rq[i] {
                t = t.max(x.2.front()?.1);
            }
            Some(t)
        };
        let Some((i, t)) = (0..n).filter_map(|i| rdy(i).map(|t| (i, t))).min_by_key(|x| (x.1, x.0)) else { break };
        clk = clk.max(t);
        let prev = win.back().copied().unwrap_or(0);
        let (a, _) = left[i].0.pop_front().unwrap();
        let (sz, _) = left[i].1.pop_front().unwrap();
        if let Rq::W { .. } = rq[i] {
            let mut buf = vec![];
            for _ in 0..sz {
                let (v, t) = left[i].2.pop_front().unwrap();
                clk = clk.max(t);
                buf.push(v);
            }
            let start = (clk + lat).max(prev);
            let end = start + crate::mem::write_bits(sz as u64 * 16, bw as u64);
            for (k, v) in buf.into_iter().enumerate() {
                mem[(a as usize + k) % cap].push((end, v));
            }
            want[i].push(((end + 1).max(clk + olat[i]), 0));
            win.push_back(end.max(clk) + 1);
        } else {
            let at = (clk + lat).max(prev);
            let mut res = at + sz as u64 * 16 / bw as u64;
            for k in 0..sz as usize {
                let v = mem[(a as usize + k) % cap].iter().filter(|x| x.0 <= at).last().map(|x| x.1).unwrap_or(0);
                res = (clk + 1).max(res + 1);
                want[i].push((res.max(clk + olat[i]), v));
            }
            win.push_back(res);
        }
    }
    crate::about(desc.clone());
    p.add_child(dr);
    let e = p.initialize(opts(infer)).map_err(|e| e.to_string())?.run(RunOptions::default());
    if !e.passed() {
        return Err(format!("the run fails :: {desc}"));
    }
    for i in 0..n {
        let got = outs[i].lock().unwrap().clone();
        if got != want[i] {
            return Err(format!("bundle {i} answers (stamp, value) {got:?}, expected {:?} :: {desc}", want[i]));
        }
    }
    ok(n > 1, desc)
}
pub fn write_bits(bits: u64, bw: u64) -> u64 {
    bits / bw
}
/// One context which writes, waits for the acknowledgement, reads, waits for the answer: it must always see its own
/// writes, whatever bundle it uses, and never get stuck.
pub fn rmw(r: &mut R) -> Res {
    let cap = r.range(1, 4) as usize;
    let (nw, nr) = (r.range(1, 3) as usize, r.range(1, 3) as usize);
    let mut p = ProgramBuilder::default();
    let mut pmu = PMU::<u16, u16, u16>::new(cap, Behavior { mod_address: false, use_default_value: true });
    let mut f: FunctionContext<Body> = FunctionContext::new();
    fn ch<T: DAMType + 'static>(p: &mut ProgramBuilder, r: &mut R) -> (Sender<T>, Receiver<T>) {
        let (l, k) = (r.range(1, 4), r.range(1, 4));
        if r.chance(1, 2) { p.bounded_with_latency(r.range(1, 3) as usize, l, k) } else { p.unbounded_with_latency(l, k) }
    }
    let (mut w, mut q) = (vec![], vec![]);
    for _ in 0..nw {
        let ((a, a2), (d, d2), (k, k2)) = (ch::<u16>(&mut p, r), ch::<u16>(&mut p, r), ch::<u16>(&mut p, r));
        pmu.add_writer(PMUWriteBundle { addr: a2, data: d2, ack: k });
        a.attach_sender(&f);
        d.attach_sender(&f);
        k2.attach_receiver(&f);
        w.push((a, d, k2));
    }
    for _ in 0..nr {
        let ((a, a2), (k, k2)) = (ch::<u16>(&mut p, r), ch::<u16>(&mut p, r));
        pmu.add_reader(PMUReadBundle { addr: a2, resp: k });
        a.attach_sender(&f);
        k2.attach_receiver(&f);
        q.push((a, k2));
    }
    let ops: Vec<(bool, usize, u16, u16)> = (0..r.range(1, 12)).map(|i| { let wr = r.chance(1, 2); (wr, if wr { r.idx(nw) } else { r.idx(nr) }, r.idx(cap) as u16, 10 + i as u16) }).collect();
    let infer = r.chance(3, 4);
    let desc = format!("infer={infer} cap={cap} writers={nw} readers={nr} operations (write?, bundle, address, value)={ops:?}");
    crate::about(desc.clone());
    let mut jr = R::new(r.next());
    f.set_run(Box::new(move |t| {
        let mut m = vec![0u16; cap];
        for (wr, i, a, v) in ops {
            jitter(&mut jr);
            if wr {
                w[i].0.enqueue(t, ChannelElement::new(t.tick(), a)).unwrap();
                w[i].1.enqueue(t, ChannelElement::new(t.tick(), v)).unwrap();
                w[i].2.dequeue(t).unwrap();
                m[a as usize] = v;
            } else {
                q[i].0.enqueue(t, ChannelElement::new(t.tick(), a)).unwrap();
                let x = q[i].1.dequeue(t).unwrap();
                if x.data != m[a as usize] {
                    crate::note(format!("address {a} reads as {} after {} was written and acknowledged", x.data, m[a as usize]));
                }
            }
        }
    }));
    p.add_child(f);
    p.add_child(pmu);
    let e = p.initialize(opts(infer)).map_err(|e| e.to_string())?.run(RunOptions::default());
    if !e.passed() {
        return Err(format!("the run fails :: {desc}"));
    }
    ok(true, desc)
}

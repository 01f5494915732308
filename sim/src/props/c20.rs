//! C20: hot path updates never wait for a stalled thread.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::*;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

// objects: 0 counter, 1 gauge (added to), 2 gauge (set), 3 histogram, 4 timestamp of the counter
const ADD: u16 = 0; // object, amount, how
const SET: u16 = 1; // object 2 or 4, value
const READ: u16 = 2; // object, what
const STORM: u16 = 3; // object, how many

const ON: [&str; 5] = ["counter", "gauge", "set gauge", "histogram", "timestamp"];
const BOUNDS: [f64; 4] = [0.01, 16.0, 1024.0, 65536.0];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C20");
    let nt = r.int(2, 4) as usize;
    if r.chance(1, 3) {
        // all amounts are multiplied by a power of two
        p.set("scale", r.pick(&[-1000, -60, -8, 8, 14, 17, 24, 40, 100, 900]));
    }
    if r.chance(1, 5) {
        p.set("neg", 1);
    }
    if r.chance(1, 8) {
        // heavy contention: long series of equal updates, so that retries and give-up paths are reached
        p.set("storm", r.int(1, 2));
        let o = if r.chance(3, 4) { r.int(0, 4) } else { -1 };
        let nt = if r.chance(1, 4) { r.int(5, 12) as usize } else { nt.max(3) };
        for t in 0..nt {
            for _ in 0..r.int(1, 3) {
                let o = if o < 0 { r.int(0, 4) } else { o };
                if r.chance(1, 4) {
                    p.push(t, READ, &[o, r.int(0, 3)])
                } else {
                    p.push(t, STORM, &[o, r.pick(&[3, 10, 30, 60, 120])])
                }
            }
        }
    }
    let storm = p.p("storm") > 0;
    // one or all kinds of objects
    let one = if r.chance(2, 3) { Some(r.int(0, 4)) } else { None };
    let mut bits: Vec<Bits> = (0..4).map(|_| Bits::new(4)).collect();
    let mut v = 0;
    for t in 0..nt {
        for _ in 0..if storm { 0 } else { r.int(1, 5) } {
            let o = one.unwrap_or_else(|| r.int(0, 4));
            if r.chance(1, 3) {
                p.push(t, READ, &[o, r.int(0, 3)]);
            } else if o == 2 || o == 4 {
                v += 1;
                p.push(t, SET, &[o, if r.chance(1, 6) { 0 } else { v }, r.int(0, 3)]);
            } else if let Some(a) = if r.chance(1, 2) { bits[o as usize].int() } else { bits[o as usize].frac() } {
                p.push(t, ADD, &[o, a as i64, r.int(0, 2)]);
            }
        }
    }
    for i in 0..r.weighted(&[1, 6, 3, 2]) {
        // stops: thread, its n-th operation, atomic step in it
        let t = r.us(p.threads.len());
        if t < p.threads.len() && !p.threads[t].is_empty() {
            let o = p.threads[t][r.us(p.threads[t].len())].clone();
            let (n, o) = (if o.k == STORM { o.a[1] } else { 0 }, o.id);
            p.set(&format!("t{}", i), t as i64 + 1);
            p.set(&format!("o{}", i), o as i64);
            p.set(&format!("k{}", i), if n > 0 { r.int(0, n * 4) } else if r.chance(2, 3) { r.int(0, 6) } else { r.int(0, 40) });
        }
    }
    p
}

#[derive(Clone, Debug)]
enum E {
    Add(usize, u64, bool),
    Read(usize, f64),
    Set(usize, Vec<Option<i64>>),
    Get(usize, Option<i64>),
    Count(u64),
    Cum(Vec<(f64, u64)>),
}
struct Reg;
impl Model for Reg {
    type S = Option<i64>;
    type O = E;
    fn step(&self, s: &Self::S, e: &E) -> Vec<Self::S> {
        match e {
            E::Set(_, v) => v.clone(),
            E::Get(_, v) if v == s => vec![*s],
            _ => vec![],
        }
    }
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let c: &'static Counter = leak(sut(|| Counter::new("c").unwrap()));
    let g: &'static Gauge = leak(sut(|| Gauge::new("g").unwrap()));
    let s: &'static Gauge = leak(sut(|| GaugeBuilder::new("s").initial_value(0.0).finish().unwrap()));
    let hi: &'static Histogram = leak(sut(|| HistogramBuilder::new("h").buckets(BOUNDS.to_vec()).finish().unwrap()));
    let scale = 2f64.powi(p.p("scale") as i32);
    let one = scale == 1.0;
    // the gauges and the histogram may be given negative amounts
    let sign = move |o: usize| if p.p("neg") != 0 && o > 0 { -scale } else { scale };
    let stamp = if one { 1 } else { -1_000_000_007 };
    let as_int = move |v: f64| -> Option<i64> {
        let v = v / sign(2);
        if v.fract() != 0.0 {
            fail!("value-torn", "op {}: the gauge is {:e}, which nobody set", rt::cur_op(), v)
        }
        Some(v as i64)
    };
    let read = move |o: usize, what: i64| match o {
        0 => h.rec(E::Read(0, 0.0), |e| *e = E::Read(0, sut(|| c.value()) / sign(0))),
        1 => h.rec(E::Read(1, 0.0), |e| *e = E::Read(1, sut(|| g.value()) / sign(1))),
        2 => h.rec(E::Get(2, None), |e| *e = E::Get(2, as_int(sut(|| s.value())))),
        4 => h.rec(E::Get(4, None), |e| *e = E::Get(4, sut(|| c.timestamp().get()).map(|t| t / stamp))),
        _ => match what {
            0 => h.rec(E::Read(3, 0.0), |e| *e = E::Read(3, sut(|| hi.sum()) / sign(3))),
            1 => h.rec(E::Count(0), |e| *e = E::Count(sut(|| hi.count()))),
            2 => h.rec(E::Cum(vec![]), |e| *e = E::Cum(sut(|| hi.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect()))),
            _ => h.rec(E::Cum(vec![]), |e| {
                let b: Vec<(f64, u64)> = sut(|| hi.buckets().iter().map(|b| (b.upper_bound(), b.count())).collect());
                let mut n = 0;
                *e = E::Cum(b.into_iter().map(|b| (b.0, { n += b.1; n })).collect())
            }),
        },
    };
    if p.p("storm") > 0 {
        return storm(p, c, g, s, hi, scale, sign(1));
    }
    run_plan(p, move |_t, o| {
        let x = o.a[0] as usize;
        let v = from_bits(o.a[1] as u64);
        match o.k {
            READ => read(x, o.a[1]),
            SET => h.rec(E::Set(x, vec![]), |e| {
                let set = if x == 2 {
                    sut(|| s.set(o.a[1] as f64 * sign(2)));
                    vec![Some(o.a[1])]
                } else if o.a[1] == 0 {
                    sut(|| c.timestamp_mut().clear());
                    vec![None]
                } else {
                    sut(|| c.timestamp_mut().set(o.a[1] * stamp));
                    vec![Some(o.a[1])]
                };
                *e = E::Set(x, set)
            }),
            _ => h.rec(E::Add(x, o.a[1] as u64, x == 1 && o.a[2] == 2), |_| match (x, o.a[2]) {
                (0, 1) if (v * scale).fract() == 0.0 && v * scale < 1e19 => sut(|| c.add_u64((v * scale) as u64)),
                (0, _) => sut(|| c.add(v * scale).unwrap()),
                (1, 2) => sut(|| g.subtract(v * sign(1))),
                (1, _) => sut(|| g.add(v * sign(1))),
                _ => sut(|| hi.observe(v * sign(3))),
            }),
        }
    });
    let stopped = rt::nhalted();
    rt::stat(rt::ST_USER0, stopped as u64);
    let all_reads = || {
        for o in 0..5 {
            for w in 0..(if o == 3 { 4 } else { 1 }) {
                read(o, w)
            }
        }
    };
    if stopped > 0 {
        all_reads();
        rt::set_op(OP_FINAL + 1);
        // updates beside the stopped ones
        let (two, v) = (2u64 << FRAC_BITS, 2.0);
        h.rec(E::Add(0, two, false), |_| sut(|| c.add(v * scale).unwrap()));
        h.rec(E::Add(1, two, false), |_| sut(|| g.add(v * sign(1))));
        h.rec(E::Add(3, two, false), |_| sut(|| hi.observe(v * sign(3))));
        rt::resume_halted();
        rt::set_op(OP_FINAL + 2);
    }
    all_reads();
    let all = h.all();
    let fin = all.iter().filter(|r| r.ret == u64::MAX).count();
    if fin > 0 {
        fail!("not-finished", "{} operations never finished", fin)
    }
    for o in [0, 1, 3] {
        let subs: u64 = all.iter().map(|r| if let E::Add(x, b, true) = r.v { if x == o { b } else { 0 } } else { 0 }).sum();
        let adds: Vec<Contrib> = all
            .iter()
            .filter_map(|r| match r.v {
                E::Add(x, b, _) if x == o => Some(Contrib { inv: r.inv, ret: r.ret, bits: b, op: r.op }),
                _ => None,
            })
            .collect();
        for r in &all {
            match &r.v {
                E::Read(x, v) if *x == o => {
                    // an amount to be subtracted shows by its absence
                    let v = match dyadic_bits(v + from_bits(subs)) {
                        Some(b) => from_bits(b ^ subs),
                        None => fail!("value-impossible", "{} read as {:e} by op {}", ON[o], v, r.op),
                    };
                    if let Err((cls, m)) = check_subset(v, r.inv, r.ret, &adds, 0) {
                        fail!(cls, "{} read by op {} ({} thread(s) were stopped): {}", ON[o], r.op, stopped, m)
                    }
                }
                E::Count(n) if o == 3 => {
                    let n = *n;
                    let lo = adds.iter().filter(|a| a.ret < r.inv).count() as u64;
                    let hi = adds.iter().filter(|a| a.inv < r.ret).count() as u64;
                    if n < lo || n > hi {
                        fail!("count-wrong", "histogram count read by op {} is {}, expected {} to {}", r.op, n, lo, hi)
                    }
                }
                E::Cum(b) if o == 3 => {
                    for (u, n) in b {
                        let n = *n as i64;
                        let lo = adds.iter().filter(|a| a.ret < r.inv && from_bits(a.bits) * sign(3) <= *u).count() as i64;
                        let hi = adds.iter().filter(|a| a.inv < r.ret && from_bits(a.bits) * sign(3) <= *u).count() as i64;
                        if n < lo || n > hi {
                            fail!("count-wrong", "histogram bucket {} read by op {} counts {}, expected {} to {}", u, r.op, n, lo, hi)
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for o in [2, 4] {
        let hist: Vec<(u64, u64, E)> = all
            .iter()
            .filter(|r| matches!(&r.v, E::Set(x, _) | E::Get(x, _) if *x == o))
            .map(|r| (r.inv, r.ret, r.v.clone()))
            .collect();
        if !linearizable(&Reg, if o == 2 { Some(0) } else { None }, &hist) {
            let mut s = String::new();
            for (i, r, e) in &hist {
                s += &format!("\n  [{},{}] {:?}", i, r, e);
            }
            fail!("not-linearizable", "no order of the operations on the {} explains their results:{}", ON[o], s)
        }
    }
}

/// All updates of an object add one amount, so that their number shows in its value.
fn storm(p: &'static Plan, c: &'static Counter, g: &'static Gauge, s: &'static Gauge, hi: &'static Histogram, scale: f64, signed: f64) {
    static BEGUN: [AtomicI64; 5] = [const { AtomicI64::new(0) }; 5];
    static DONE: [AtomicI64; 5] = [const { AtomicI64::new(0) }; 5];
    let amt = [1.0, 0.5][p.p("storm") as usize - 1] * scale;
    let signed = amt / scale * signed;
    let update = move |x: usize| {
        let i = BEGUN[x].fetch_add(1, Relaxed) + 1;
        match x {
            0 if i % 3 == 0 && amt.fract() == 0.0 && amt < 1e19 => sut(|| c.add_u64(amt as u64)),
            0 => sut(|| c.add(amt).unwrap()),
            1 => sut(|| g.add(signed)),
            2 => sut(|| s.set(i as f64)),
            3 => sut(|| hi.observe(signed)),
            _ => sut(|| c.timestamp_mut().set(i)),
        }
        DONE[x].fetch_add(1, Relaxed);
    };
    let read = move |x: usize, what: i64| {
        let lo = DONE[x].load(Relaxed) as f64;
        let n = match (x, what) {
            (0, _) => sut(|| c.value()) / amt,
            (1, _) => sut(|| g.value()) / signed,
            (2, _) => sut(|| s.value()),
            (3, 0) => sut(|| hi.sum()) / signed,
            (3, 1) => sut(|| hi.count()) as f64,
            (3, 2) => sut(|| hi.cumulative_buckets().last().map_or(0, |b| b.cumulative_count())) as f64,
            (3, _) => sut(|| hi.buckets().iter().map(|b| b.count()).sum::<u64>()) as f64,
            _ => sut(|| c.timestamp().get()).unwrap_or(0) as f64,
        };
        let hi = BEGUN[x].load(Relaxed) as f64;
        // the last of the completed settings need not be the one with the highest number
        let lo = if x == 2 || x == 4 { (lo > 0.0) as i64 as f64 } else { lo };
        if !(lo <= n && n <= hi && n.fract() == 0.0) {
            fail!("update-lost", "the {} read by op {} shows {} updates, expected {} to {}", ON[x], rt::cur_op(), n, lo, hi)
        }
    };
    run_plan(p, move |_t, o| match o.k {
        READ => read(o.a[0] as usize, o.a[1]),
        _ => {
            for i in 0..o.a[1] {
                if i > 0 {
                    rt::boundary();
                }
                update(o.a[0] as usize)
            }
        }
    });
    let stopped = rt::nhalted();
    rt::stat(rt::ST_USER0, stopped as u64);
    let all_reads = || {
        for o in 0..5 {
            for w in 0..(if o == 3 { 4 } else { 1 }) {
                read(o, w)
            }
        }
    };
    all_reads();
    if stopped > 0 {
        rt::set_op(OP_FINAL + 1);
        for o in 0..5 {
            update(o)
        }
        all_reads();
        rt::resume_halted();
        rt::set_op(OP_FINAL + 2);
        all_reads();
    }
    for o in 0..5 {
        if BEGUN[o].load(Relaxed) != DONE[o].load(Relaxed) {
            fail!("not-finished", "an update of the {} never finished", ON[o])
        }
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    let n = ON[o.a[0] as usize];
    match o.k {
        STORM => format!("{} updates of the {}", o.a[1], n),
        READ => format!("read the {}{}", n, if o.a[0] == 3 { [" sum", " count", " cumulative buckets", " buckets"][o.a[1] as usize] } else { "" }),
        SET => format!("set the {} to {}{}", n, o.a[1], if o.a[0] == 4 && o.a[1] == 0 { " (clear)" } else { "" }),
        _ => format!("{} {} {} the {}", if o.a[0] == 1 && o.a[2] == 2 { "subtract" } else { "add" }, from_bits(o.a[1] as u64), if o.a[0] == 1 && o.a[2] == 2 { "from" } else { "to" }, n),
    }
}
fn cfg(r: &mut Rng, p: &Plan, c: &mut Config) {
    for i in 0..3 {
        let t = p.p(&format!("t{}", i));
        if t > 0 {
            let n = c.nhalt as usize;
            c.halt_tid[n] = t as i32;
            c.halt_op[n] = p.p(&format!("o{}", i)) as i32;
            c.halt_k[n] = p.p(&format!("k{}", i)) as i32;
            c.nhalt += 1;
        }
    }
    if p.p("storm") > 0 && c.nhalt > 0 && r.chance(1, 2) {
        // the threads which are to be stopped, and then the next ones, lose nearly every race
        c.policy = 3;
        c.p_switch = r.pick(&[65536, 61440, 49152]);
        c.fair_seed -= c.fair_seed % p.threads.len() as u64;
        c.fair_seed += (c.halt_tid[0] - 1) as u64;
    }
}

pub const PROP: Prop = Prop {
    id: "C20",
    gen,
    cfg,
    exec,
    describe,
    quick: 120000,
    thorough: 4_000_000,
    rule: "a case is one simulated run: 2-4 threads (in storms up to 12) update and read metrics while up to 3 of them are stopped at a generated step inside a call and resumed only after all others have finished; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &["threads_stopped"],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};

//! C01: counter updates are never lost, invented or counted twice.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::{Counter, CounterBuilder, MetricBuilder};
use prometrics::Gatherer;
use std::sync::Mutex;

const INC: u16 = 0;
const ADD: u16 = 1;
const ADDU: u16 = 2;
const READ: u16 = 3;
const SHOW: u16 = 4;
const BAD: u16 = 5;
const GATHER: u16 = 6;
const CLONE: u16 = 7;
const ZERO: u16 = 8;
const ADDF: u16 = 9;
const ADDUF: u16 = 10;
const STORM: u16 = 11; // counter, how many, how

/// amounts of long series
const STORMS: [f64; 6] = [1.0, 0.5, 24.0, 4294967296.0, 2147483649.0, 1000003.0];

/// x * 2^e in exact steps
fn ldexp(mut x: f64, mut e: i32) -> f64 {
    while e > 0 {
        let k = e.min(500);
        x *= f64::from_bits(((1023 + k) as u64) << 52);
        e -= k;
    }
    while e < 0 {
        let k = (-e).min(500);
        x *= f64::from_bits(((1023 - k) as u64) << 52);
        e += k;
    }
    x
}

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C01");
    let nt = r.int(2, 4) as usize;
    let nc = r.int(1, 2);
    p.set("build", r.int(0, 3));
    for c in 0..nc {
        p.obj(0, &[c]);
    }
    if r.chance(1, 12) {
        // heavy contention: long series of equal additions
        p.set("storm", 1);
        let many = r.chance(1, 4);
        let nt = if many { crowd(r) } else { nt };
        let one = many && r.chance(1, 2);
        let how = r.int(0, 5);
        let mut large = 0;
        for t in 0..nt {
            for _ in 0..r.int(1, 4) {
                let c = r.int(0, nc - 1);
                if r.chance(1, 4) {
                    p.push(t, r.pick(&[READ, SHOW, GATHER]), &[c])
                } else {
                    let n = r.pick(if nt > 20 { &[1, 3, 10, 40] } else { &[1, 3, 10, 40, 120, 300] });
                    let mut how = if one { how } else { r.pick(&[0, 0, 1, 1, 1, 2, 3, 4, 5]) };
                    if how == 3 || how == 4 {
                        // the recorded sum is limited to 64 bits
                        large += n;
                        how = if large > 3000 { 1 } else { how }
                    }
                    p.push(t, STORM, &[c, n, how])
                }
            }
        }
        return p;
    }
    if r.chance(1, 5) {
        // amounts of any magnitude: units of 2^-scale, up to 53 of them
        let scale = r.pick(&[44i64, 44, 44, 200, 1074, -20, -900, 0, 0, -9]);
        p.set("scale", scale);
        p.set("fine", 1);
        let mut free: Vec<Vec<u32>> = (0..nc).map(|_| (0..53).collect()).collect();
        for t in 0..nt {
            for _ in 0..r.int(1, 6) {
                let c = r.int(0, nc - 1);
                let f = &mut free[c as usize];
                let lo = |b: &u32| *b < 44;
                let mut take = |r: &mut Rng, want: &dyn Fn(&u32) -> bool| -> u64 {
                    let v: Vec<usize> = (0..f.len()).filter(|&i| want(&f[i])).collect();
                    if v.is_empty() {
                        return 0;
                    }
                    let k = v[r.int(0, v.len() as i64 - 1) as usize];
                    1u64 << f.remove(k)
                };
                let amt = match r.int(0, 7) {
                    0 | 1 => take(r, &lo),
                    2 => take(r, &|b| !lo(b)),
                    3 | 4 => take(r, &|b| !lo(b)) | take(r, &|b| *b < 16),
                    5 => {
                        let n = r.int(2, 8);
                        (0..n).fold(0, |a, _| a | take(r, &lo))
                    }
                    6 => {
                        if scale <= 0 && scale >= -11 {
                            let b = take(r, &|_| true) | take(r, &lo) | take(r, &lo) | take(r, &|b| !lo(b));
                            if b != 0 {
                                p.push(t, ADDUF, &[c, b as i64]);
                            }
                        }
                        if scale == 44 {
                            let b = take(r, &|b| !lo(b));
                            if b != 0 {
                                p.push(t, ADDUF, &[c, b as i64]);
                            }
                        }
                        0
                    }
                    _ => {
                        let k = r.pick(&[READ, READ, SHOW, GATHER, BAD, ZERO]);
                        let x = r.int(0, 5);
                        p.push(t, k, &[c, x]);
                        0
                    }
                };
                if amt != 0 {
                    p.push(t, ADDF, &[c, amt as i64]);
                }
            }
        }
        return p;
    }
    let mut bits: Vec<Bits> = (0..nc).map(|_| Bits::new(4)).collect();
    let mut units = vec![0; nc as usize];
    let w: [u32; 9] = *r.pick(&[
        &[4, 4, 3, 4, 1, 1, 1, 1, 1],
        &[8, 0, 0, 3, 0, 0, 0, 0, 0],
        &[0, 8, 0, 3, 0, 1, 0, 0, 0],
        &[2, 2, 8, 3, 1, 0, 1, 0, 0],
        &[3, 3, 3, 3, 2, 2, 3, 2, 1],
    ]);
    for t in 0..nt {
        for _ in 0..r.int(1, 6) {
            let c = r.int(0, nc - 1);
            let b = &mut bits[c as usize];
            match r.weighted(&w) as u16 {
                INC => {
                    if units[c as usize] < 15 {
                        units[c as usize] += 1;
                        p.push(t, INC, &[c])
                    }
                }
                ADD => {
                    let amt = match r.int(0, 2) {
                        0 => b.int(),
                        1 => b.frac(),
                        _ => b.int().and_then(|x| b.frac().map(|y| x | y)),
                    };
                    if let Some(a) = amt {
                        p.push(t, ADD, &[c, a as i64])
                    }
                }
                ADDU => {
                    if let Some(a) = b.int() {
                        p.push(t, ADDU, &[c, a as i64])
                    }
                }
                k => {
                    let x = r.int(0, 5);
                    p.push(t, k, &[c, x])
                }
            }
        }
    }
    p
}

#[derive(Clone, Debug)]
enum E {
    Add(i64, u64),
    Read(i64, f64),
}

fn exec(p: &'static Plan) {
    let scale = if p.p("fine") == 1 { p.p("scale") as i32 } else { FRAC_BITS };
    let width = if p.p("fine") == 1 { 0 } else { 4 };
    let h: &'static Hist<E> = leak(Hist::new());
    let nc = p.objs.len();
    let gat: &'static Mutex<Gatherer> = leak(Mutex::new(sut(Gatherer::new)));
    let cs: &'static Vec<Counter> = leak(
        (0..nc)
            .map(|i| {
                sut(|| {
                    let reg = gat.lock().unwrap().registry();
                    let name = format!("c{}", i);
                    match p.p("build") {
                        0 => CounterBuilder::new(&name).registry(reg).finish().unwrap(),
                        1 => MetricBuilder::with_registry(reg).counter(&name).finish().unwrap(),
                        3 => {
                            // the builder has been used before and is used again
                            let mut b = CounterBuilder::new(&name);
                            let other = b.finish().unwrap();
                            other.add_u64(3);
                            let c = b.registry(reg).finish().unwrap();
                            other.increment();
                            c
                        }
                        _ => {
                            let c = Counter::new(&name).unwrap();
                            reg.register(c.collector());
                            c
                        }
                    }
                })
            })
            .collect(),
    );
    let gather = move |c: usize| -> f64 {
        let i = h.begin(E::Read(c as i64, 0.0));
        let fam = sut(|| gat.lock().unwrap().gather());
        let mut v = None;
        for f in fam.into_vec() {
            if f.name().name() == format!("c{}", c) {
                if let prometrics::metric::Metrics::Counter(x) = f.metrics() {
                    if x.len() != 1 || v.is_some() {
                        fail!("series-count", "counter c{} appears {} times", c, x.len());
                    }
                    v = Some(x[0].value());
                }
            }
        }
        let v = v.unwrap_or_else(|| fail!("series-missing", "counter c{} is missing from a gather", c));
        h.end_with(i, |e| *e = E::Read(c as i64, v));
        v
    };
    run_plan(p, move |_t, o| {
        let c = o.a[0] as usize;
        let ctr = &cs[c];
        match o.k {
            INC => h.rec(E::Add(c as i64, 1 << FRAC_BITS), |_| sut(|| ctr.increment())),
            ADD => h.rec(E::Add(c as i64, o.a[1] as u64), |_| {
                let v = from_bits(o.a[1] as u64);
                if sut(|| ctr.add(v).is_err()) {
                    fail!("valid-rejected", "add({}) was rejected", v)
                }
            }),
            ADDU => h.rec(E::Add(c as i64, o.a[1] as u64), |_| sut(|| ctr.add_u64(o.a[1] as u64 >> FRAC_BITS))),
            ADDF => h.rec(E::Add(c as i64, o.a[1] as u64), |_| {
                let v = ldexp(o.a[1] as f64, -scale);
                if sut(|| ctr.add(v).is_err()) {
                    fail!("valid-rejected", "add({:e}) was rejected", v)
                }
            }),
            ADDUF => h.rec(E::Add(c as i64, o.a[1] as u64), |_| {
                let a = o.a[1] as u64;
                sut(|| ctr.add_u64(if scale >= 0 { a >> scale } else { a << -scale }))
            }),
            READ => h.rec(E::Read(c as i64, 0.0), |e| *e = E::Read(c as i64, sut(|| ctr.value()))),
            SHOW => h.rec(E::Read(c as i64, 0.0), |e| {
                let s = sut(|| ctr.to_string());
                match last_value(&s) {
                    Some(v) => *e = E::Read(c as i64, v),
                    None => fail!("unparsable", "counter printed as {:?}", s),
                }
            }),
            BAD => {
                let v = [f64::NAN, -1.0, -0.5, f64::NEG_INFINITY, -1e-300, -1e300][o.a[1] as usize];
                if sut(|| ctr.add(v).is_ok()) {
                    fail!("invalid-accepted", "add({}) was accepted", v)
                }
            }
            GATHER => {
                gather(c);
            }
            STORM => {
                for i in 0..o.a[1] {
                    if i > 0 {
                        rt::boundary();
                    }
                    let amt = (STORMS[o.a[2] as usize] * (1u64 << FRAC_BITS) as f64) as u64;
                    h.rec(E::Add(c as i64, amt), |_| {
                        sut(|| match o.a[2] {
                            0 => ctr.increment(),
                            1 | 4 => ctr.add(STORMS[o.a[2] as usize]).unwrap(),
                            k => ctr.add_u64(STORMS[k as usize] as u64),
                        })
                    })
                }
            }
            CLONE => sut(|| {
                let d = ctr.clone();
                drop(d)
            }),
            ZERO => sut(|| match o.a[1] {
                0 => ctr.add(0.0).unwrap(),
                1 => ctr.add(-0.0).unwrap_or(()),
                _ => ctr.add_u64(0),
            }),
            _ => rt::herr("op"),
        }
    });
    let hist = h.all();
    for c in 0..nc {
        let adds: Vec<Contrib> = hist
            .iter()
            .filter_map(|r| match r.v {
                E::Add(i, b) if i == c as i64 => Some(Contrib { inv: r.inv, ret: r.ret, bits: b, op: r.op }),
                _ => None,
            })
            .collect();
        let parts: Vec<Part> = adds.iter().map(|a| (a.inv, a.ret, from_bits(a.bits))).collect();
        let chk = |v: f64, inv, ret, what: &str| {
            if p.p("storm") == 1 {
                let (lo, hi) = sum_range(&parts, inv, ret);
                if !(v >= lo) {
                    fail!("update-lost", "counter c{}: {}: value {}, additions of {} had completed before", c, what, v, lo)
                }
                if !(v <= hi) {
                    fail!("value-invented", "counter c{}: {}: value {}, only additions of {} had begun", c, what, v, hi)
                }
                return;
            }
            if let Err((cls, m)) = check_subset(ldexp(v, scale - FRAC_BITS), inv, ret, &adds, width) {
                fail!(cls, "counter c{}: {}: {}{}", c, what, m, if scale == FRAC_BITS { String::new() } else { format!(" (in units of 2^{})", FRAC_BITS - scale) })
            }
        };
        let v = sut(|| cs[c].value());
        chk(v, u64::MAX - 1, u64::MAX, "final value");
        let exact: f64 = ldexp(adds.iter().map(|a| a.bits).sum::<u64>() as f64, -scale);
        if v != exact {
            fail!("value-wrong", "counter c{} ended at {} instead of {}", c, v, exact)
        }
        for r in &hist {
            if let E::Read(i, v) = r.v {
                if i == c as i64 {
                    chk(v, r.inv, r.ret, &format!("read by op {}", r.op))
                }
            }
        }
        let v = gather(c);
        if v != exact {
            fail!("value-wrong", "counter c{} was gathered as {} instead of {}", c, v, exact)
        }
    }
}

fn describe(o: &Op, setup: bool) -> String {
    if setup {
        return format!("counter c{}", o.a[0]);
    }
    let c = o.a[0];
    match o.k {
        INC => format!("c{}.increment()", c),
        ADD => format!("c{}.add({})", c, from_bits(o.a[1] as u64)),
        ADDU => format!("c{}.add_u64({})", c, o.a[1] as u64 >> FRAC_BITS),
        ADDF => format!("c{}.add({:#x} units)", c, o.a[1]),
        ADDUF => format!("c{}.add_u64({:#x} units)", c, o.a[1]),
        READ => format!("c{}.value()", c),
        SHOW => format!("c{}.to_string()", c),
        BAD => format!("c{}.add(<invalid {}>)", c, o.a[1]),
        GATHER => format!("gather c{}", c),
        STORM => format!("{} times c{}.{}({})", o.a[1], c, ["increment", "add", "add_u64", "add_u64", "add", "add_u64"][o.a[2] as usize], STORMS[o.a[2] as usize]),
        CLONE => format!("clone and drop c{}", c),
        _ => format!("c{} add zero", c),
    }
}
fn cfg(_r: &mut Rng, _p: &Plan, _c: &mut Config) {}

pub const PROP: Prop = Prop {
    id: "C01",
    gen,
    cfg,
    exec,
    describe,
    quick: 90000,
    thorough: 1_500_000,
    rule: "a case is one simulated run: 2-4 threads x 1-6 counter operations (or 2-66 threads with long series of equal additions) under one seeded schedule; non-trivial: at least one preemption inside a call or contention occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, atomic_immut, std (mpsc, Arc, Mutex), compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};

//! C03: gauge operations are linearizable.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::{Gauge, GaugeBuilder};

const SET: u16 = 0;
const ADD: u16 = 1;
const SUB: u16 = 2;
const INC: u16 = 3;
const DEC: u16 = 4;
const NOW: u16 = 5;
const READ: u16 = 6;
const SHOW: u16 = 7;
const GATHER: u16 = 8;
const STORM: u16 = 9; // how many, how

const ODD: [f64; 6] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e300, 5e-324];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C03");
    p.set("init", r.int(0, 2));
    p.set("twin", r.chance(1, 4) as i64);
    let nt = r.int(2, 4) as usize;
    if r.chance(1, 12) {
        // heavy contention: long series of additions, checked by bounds
        p.set("storm", 1);
        let many = r.chance(1, 4);
        let nt = if many { crowd(r) } else { nt };
        let one = many && r.chance(1, 2);
        let how = r.int(0, 3);
        for t in 0..nt {
            for _ in 0..r.int(1, 4) {
                if r.chance(1, 4) {
                    p.push(t, r.pick(&[READ, SHOW, GATHER]), &[])
                } else {
                    p.push(t, STORM, &[r.pick(&[1, 3, 10, 40, 120]), if one { how } else { r.int(0, 3) }])
                }
            }
        }
        return p;
    }
    let odd = r.chance(1, 10);
    let now = r.chance(1, 4);
    let w: [u32; 9] = [3, 4, 4, 2, 2, if now { 4 } else { 0 }, 6, 1, 1];
    let mut next = 0;
    for t in 0..nt {
        for _ in 0..r.int(1, 12 / nt as i64 + 1) {
            match r.weighted(&w) as u16 {
                k if k <= SUB => {
                    next += 1;
                    if odd && r.chance(1, 4) {
                        p.push(t, k, &[-1, r.int(0, 5)])
                    } else {
                        p.push(t, k, &[next % 31])
                    }
                }
                k => p.push(t, k, &[]),
            }
        }
    }
    p
}
fn amount(o: &Op) -> f64 {
    if o.a[0] < 0 {
        ODD[o.a[1] as usize]
    } else {
        // unique powers of two, alternating between integers and fractions
        if o.a[0] % 3 == 0 { 2f64.powi(-(o.a[0] as i32) / 2) } else { 2f64.powi(o.a[0] as i32) }
    }
}

#[derive(Clone, Debug)]
enum E {
    Set(f64),
    Add(f64),
    Now(Vec<i64>),
    Read(f64),
}
struct M;
/// (bits of the value, is it only known approximately)
type S = (u64, bool);
fn canon(v: f64) -> u64 {
    if v.is_nan() {
        f64::NAN.to_bits()
    } else {
        (v + 0.0).to_bits()
    }
}
impl Model for M {
    type S = S;
    type O = E;
    fn step(&self, s: &S, o: &E) -> Vec<S> {
        let v = f64::from_bits(s.0);
        match o {
            E::Set(x) => vec![(canon(*x), false)],
            E::Add(x) => vec![(canon(v + x), s.1)],
            E::Now(c) => c.iter().map(|&ns| (canon(ns as f64 / 1e9), true)).collect(),
            E::Read(x) => {
                if canon(*x) == s.0 || (s.1 && (x - v).abs() < 1e-5) {
                    vec![(canon(*x), false)]
                } else {
                    vec![]
                }
            }
        }
    }
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let init = [0.0, 2.5, -7.0][p.p("init") as usize];
    let c: &'static Gauge = leak(sut(|| {
        let mut b = GaugeBuilder::new("g");
        b.initial_value(init);
        if p.p("twin") > 0 {
            // the builder has been used before
            b.finish().unwrap().add(100.0)
        }
        b.registry(registry(g)).finish().unwrap()
    }));
    run_plan(p, move |_t, o| match o.k {
        STORM => {
            for i in 0..o.a[0] {
                if i > 0 {
                    rt::boundary();
                }
                h.rec(E::Add([1.0, -1.0, 2.5, -0.25][o.a[1] as usize]), |_| {
                    sut(|| match o.a[1] {
                        0 => c.increment(),
                        1 => c.decrement(),
                        2 => c.add(2.5),
                        _ => c.subtract(0.25),
                    })
                })
            }
        }
        SET => h.rec(E::Set(amount(o)), |_| sut(|| c.set(amount(o)))),
        ADD => h.rec(E::Add(amount(o)), |_| sut(|| c.add(amount(o)))),
        SUB => h.rec(E::Add(-amount(o)), |_| sut(|| c.clone().subtract(amount(o)))),
        INC => h.rec(E::Add(1.0), |_| sut(|| c.increment())),
        DEC => h.rec(E::Add(-1.0), |_| sut(|| c.decrement())),
        NOW => h.rec(E::Now(vec![]), |e| {
            let m = rt::wall_mark();
            sut(|| c.set_to_current_time());
            let mut v = rt::wall_values(m);
            v.sort();
            v.dedup();
            *e = E::Now(v)
        }),
        READ => h.rec(E::Read(0.0), |e| *e = E::Read(sut(|| c.value()))),
        SHOW => h.rec(E::Read(0.0), |e| {
            let s = sut(|| c.to_string());
            match last_value(&s) {
                Some(v) => *e = E::Read(v),
                None => fail!("unparsable", "gauge printed as {:?}", s),
            }
        }),
        GATHER => h.rec(E::Read(0.0), |e| match only(&views(&gather(g)), "g").val {
            Val::Num(v) => *e = E::Read(v),
            _ => fail!("wrong-kind", "a gauge was gathered as something else"),
        }),
        _ => rt::herr("op"),
    });
    h.rec(E::Read(0.0), |e| *e = E::Read(sut(|| c.value())));
    let all = h.all();
    if p.p("storm") == 1 {
        let parts: Vec<Part> = all.iter().filter_map(|r| if let E::Add(a) = r.v { Some((r.inv, r.ret, a)) } else { None }).collect();
        for r in &all {
            if let E::Read(v) = r.v {
                let (lo, hi) = sum_range(&parts, r.inv, r.ret);
                if !(v >= init + lo && v <= init + hi) {
                    fail!("not-linearizable", "op {} read {}, the additions completed and in flight allow {} to {}", r.op, v, init + lo, init + hi)
                }
            }
        }
        return;
    }
    let hist: Vec<(u64, u64, E)> = all.iter().map(|r| (r.inv, r.ret, r.v.clone())).collect();
    if !linearizable(&M, (canon(init), false), &hist) {
        let mut s = String::new();
        for r in &all {
            s += &format!("\n  [{}..{}] t{} op {}: {:?}", r.inv, r.ret, r.tid, r.op, r.v);
        }
        fail!("not-linearizable", "no sequential order of the gauge operations (initial value {}) explains the values read:{}", init, s)
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    match o.k {
        SET => format!("set({})", amount(o)),
        ADD => format!("add({})", amount(o)),
        SUB => format!("subtract({})", amount(o)),
        INC => "increment()".into(),
        DEC => "decrement()".into(),
        NOW => "set_to_current_time()".into(),
        STORM => format!("{} times {}", o.a[0], ["increment()", "decrement()", "add(2.5)", "subtract(0.25)"][o.a[1] as usize]),
        READ => "value()".into(),
        SHOW => "to_string()".into(),
        _ => "gather".into(),
    }
}
fn cfg(r: &mut Rng, p: &Plan, c: &mut Config) {
    if p.threads.iter().flatten().any(|o| o.k == NOW) {
        time_cfg(r, c, &[1_000_000, 1_000_000_000, 123_456_789], &[-5_000_000_000, 7_000_000_000, -86_400_000_000_000, 1_500_000]);
        if r.chance(1, 6) {
            c.wall0 = -2_500_000_000; // before the epoch
        }
    }
}

pub const PROP: Prop = Prop {
    id: "C03",
    gen,
    cfg,
    exec,
    describe,
    quick: 90000,
    thorough: 3_000_000,
    rule: "a case is one simulated run: 2-4 threads, at most 15 gauge operations, checked for linearizability against a single floating point variable (or 2-66 threads with long series of additions, checked by bounds); non-trivial: a preemption inside a call or a clock movement occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};

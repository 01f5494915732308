//! C17: timing a closure records its true elapsed time once.
use crate::common::*;
use crate::driver::Prop;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

const TIME: u16 = 0; // metric, ns spent inside, nested?, ns spent inside the nested call
const READ: u16 = 1; // metric
const SPEND: u16 = 2; // -, ns

const KN: [&str; 4] = ["counter", "gauge", "histogram", "summary"];
const MS: i64 = 1_000_000;
const S: i64 = 1000 * MS;
const BOUNDS: [f64; 8] = [0.0, 1e-6, 0.001, 0.5, 1.0, 2.0, 60.0, 3600.0];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C17");
    let nm = r.int(1, 4);
    let k0 = r.int(0, 3);
    for i in 0..nm {
        p.obj(0, &[(k0 + i) % 4]);
    }
    let nt = r.int(1, 4) as usize;
    for t in 0..nt {
        for _ in 0..r.int(1, 5) {
            let m = r.int(0, nm - 1);
            let d = |r: &mut Rng| r.pick(&[0, 0, 1, 999, 1000, MS - 1, MS, 17 * MS + 3, 500 * MS, S - 1, S, S + 1, 2 * S, 61 * S + 7, 3601 * S, 86400 * S, 12 * 86400 * S + 5, 300 * 86400 * S + 123_456_789]);
            match r.weighted(&[8, 2, 1]) {
                0 => {
                    let a = d(r);
                    let b = d(r);
                    p.push(t, TIME, &[m, a, r.chance(1, 6) as i64, b])
                }
                1 => p.push(t, READ, &[m]),
                _ => {
                    let a = d(r);
                    p.push(t, SPEND, &[0, a])
                }
            }
        }
    }
    p
}

pub enum M {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
impl M {
    pub fn time<T>(&self, f: impl FnOnce() -> T) -> T {
        match self {
            M::C(m) => m.time(f),
            M::G(m) => m.time(f),
            M::H(m) => m.time(f),
            M::S(m) => m.time(f),
        }
    }
}
pub fn make(kind: i64, name: &str, reg: Option<prometrics::Registry>) -> M {
    macro_rules! mk {
        ($b:expr) => {{
            let mut b = $b;
            if let Some(r) = reg {
                b.registry(r);
            }
            b.finish().unwrap()
        }};
    }
    match kind {
        0 => M::C(mk!(CounterBuilder::new(name))),
        1 => M::G(mk!(GaugeBuilder::new(name))),
        2 => M::H(mk!({
            let mut b = HistogramBuilder::new(name);
            for x in BOUNDS.iter() {
                b.bucket(*x);
            }
            b
        })),
        _ => M::S(mk!({
            let mut b = SummaryBuilder::new(name, Duration::from_secs(1 << 40));
            for q in dense() {
                b.quantile(q);
            }
            b
        })),
    }
}

#[derive(Clone, Debug)]
enum E {
    /// metric, [closure] elapsed, [call] elapsed, calls of the closure
    Time(usize, u64, u64),
    Read(usize, f64),
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let ms: &'static Vec<M> = leak(p.objs.iter().map(|o| sut(|| make(o.a[0], "m", None))).collect());
    fn timed(h: &'static Hist<E>, m: usize, x: &'static M, ns: i64, nest: &dyn Fn()) {
        h.rec(E::Time(m, 0, u64::MAX), |e| {
            let calls = AtomicUsize::new(0);
            let inner = Mutex::new(0);
            let token = rt::seq();
            let t0 = rt::mono();
            let back = sut(|| {
                x.time(|| {
                    let d = rt::user(|| {
                        let s = rt::mono();
                        calls.fetch_add(1, SeqCst);
                        rt::yield_now();
                        rt::advance(ns);
                        nest();
                        rt::mono() - s
                    });
                    *inner.lock().unwrap() = d;
                    (token, d)
                })
            });
            let outer = rt::mono() - t0;
            let inner = *inner.lock().unwrap();
            if calls.load(SeqCst) != 1 {
                rt::fail("closure-calls", &format!("op {}: the closure was called {} times", rt::cur_op(), calls.load(SeqCst)))
            }
            if back != (token, inner) {
                rt::fail("wrong-result", &format!("op {}: the call returned {:?}, the closure returned {:?}", rt::cur_op(), back, (token, inner)))
            }
            *e = E::Time(m, inner, outer)
        })
    }
    run_plan(p, move |_t, o| {
        let m = o.a[0] as usize;
        match o.k {
            TIME => timed(h, m, &ms[m], o.a[1], &|| {
                if o.a[2] != 0 {
                    timed(h, m, &ms[m], o.a[3], &|| ())
                }
            }),
            READ => match &ms[m] {
                M::C(c) => h.rec(E::Read(m, 0.0), |e| *e = E::Read(m, sut(|| c.value()))),
                M::G(c) => h.rec(E::Read(m, 0.0), |e| *e = E::Read(m, sut(|| c.value()))),
                _ => {}
            },
            _ => rt::advance(o.a[1]),
        }
    });
    for (m, x) in ms.iter().enumerate() {
        match x {
            M::C(c) => h.rec(E::Read(m, 0.0), |e| *e = E::Read(m, sut(|| c.value()))),
            M::G(c) => h.rec(E::Read(m, 0.0), |e| *e = E::Read(m, sut(|| c.value()))),
            _ => {}
        }
    }
    let all = h.all();
    let show = |m: usize| {
        let mut s = String::new();
        for r in &all {
            match &r.v {
                E::Time(n, a, b) if *n == m => s += &format!("\n  t{} op {} [{},{}]: closure {} ns, call {} ns", r.tid, r.op, r.inv, r.ret, a, b),
                E::Read(n, v) if *n == m => s += &format!("\n  t{} op {} [{},{}]: read {:e}", r.tid, r.op, r.inv, r.ret, v),
                _ => {}
            }
        }
        s
    };
    let sec = |ns: u64| ns as f64 / 1e9;
    let tol = |t: f64| 2e-9 + 1e-12 * t;
    for (m, x) in ms.iter().enumerate() {
        let t: Vec<(u64, u64, f64, f64)> = all
            .iter()
            .filter_map(|r| match &r.v {
                E::Time(n, a, b) if *n == m => Some((r.inv, r.ret, sec(*a), sec(*b))),
                _ => None,
            })
            .collect();
        for r in &all {
            let v = match &r.v {
                E::Read(n, v) if *n == m => *v,
                _ => continue,
            };
            if p.objs[m].a[0] == 0 {
                let lo: f64 = t.iter().filter(|t| t.1 < r.inv).map(|t| t.2).sum();
                let hi: f64 = t.iter().filter(|t| t.0 < r.ret).map(|t| t.3).sum();
                if !(lo - tol(lo) <= v && v <= hi + tol(hi)) {
                    rt::fail("wrong-duration", &format!("op {}: the counter is {:e} s, expected {:e} to {:e}:{}", r.op, v, lo, hi, show(m)))
                }
            } else {
                let none = !t.iter().any(|t| t.1 < r.inv);
                let ok = (none && v == 0.0)
                    || t.iter().any(|w| {
                        w.0 < r.ret && !t.iter().any(|x| x.0 > w.1 && x.1 < r.inv) && w.2 - tol(w.2) <= v && v <= w.3 + tol(w.3)
                    });
                if !ok {
                    rt::fail("wrong-duration", &format!("op {}: the gauge is {:e} s, which no timed call explains:{}", r.op, v, show(m)))
                }
            }
        }
        let n = t.len() as u64;
        let (lo, hi): (f64, f64) = t.iter().fold((0.0, 0.0), |a, t| (a.0 + t.2, a.1 + t.3));
        let check = |count: u64, sum: f64| {
            if count != n {
                rt::fail("wrong-count", &format!("{} {} recorded {} durations of {} timed calls:{}", KN[p.objs[m].a[0] as usize], m, count, n, show(m)))
            }
            if !(lo - tol(lo) <= sum && sum <= hi + tol(hi)) {
                rt::fail("wrong-duration", &format!("{} {} recorded {:e} s in total, expected {:e} to {:e}:{}", KN[p.objs[m].a[0] as usize], m, sum, lo, hi, show(m)))
            }
        };
        match x {
            M::H(c) => {
                let (b, n, s) = sut(|| (c.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect::<Vec<_>>(), c.count(), c.sum()));
                check(n, s);
                for (u, c) in b {
                    let lo = t.iter().filter(|t| t.3 + tol(t.3) <= u).count() as u64;
                    let hi = t.iter().filter(|t| t.2 - tol(t.2) <= u).count() as u64;
                    if c < lo || c > hi {
                        rt::fail("wrong-duration", &format!("histogram {} counts {} durations up to {} s, expected {} to {}:{}", m, c, u, lo, hi, show(m)))
                    }
                }
            }
            M::S(c) => {
                let (q, k, s) = sut(|| (c.quantiles(), c.count(), c.sum()));
                check(k, s);
                if n > 0 && q.len() != 64 {
                    rt::fail("wrong-count", &format!("summary {} has {} quantiles of {} durations (64 configured){}", m, q.len(), n, show(m)))
                }
                for (q, v) in q {
                    let q = q.as_f64();
                    let lt = t.iter().filter(|t| t.3 + tol(t.3) < v).count() as f64;
                    let le = t.iter().filter(|t| t.2 - tol(t.2) <= v).count() as f64;
                    if !(lt <= q * n as f64 + 1e-9 && q * n as f64 <= le + 1e-9) || !t.iter().any(|t| t.2 - tol(t.2) <= v && v <= t.3 + tol(t.3)) {
                        rt::fail("wrong-duration", &format!("summary {}: quantile {} is {:e} s:{}", m, q, v, show(m)))
                    }
                }
            }
            _ => {}
        }
    }
}

fn describe(o: &Op, setup: bool) -> String {
    if setup {
        return KN[o.a[0] as usize].into();
    }
    match o.k {
        TIME => format!("metric {}: time a closure of {} ns{}", o.a[0], o.a[1], if o.a[2] != 0 { format!(" and a nested one of {} ns", o.a[3]) } else { "".into() }),
        READ => format!("metric {}: value() (counter, gauge)", o.a[0]),
        _ => format!("let {} ns pass", o.a[1]),
    }
}
fn cfg(r: &mut Rng, _p: &Plan, c: &mut Config) {
    time_cfg(r, c, &[1, 1000, MS, 3 * MS + 1, S, 100 * S], &[-1, MS, -S, -100 * S, 3600 * S, -86400 * S]);
    if r.chance(1, 4) {
        c.wall0 = r.int(-10 * S, 10 * S);
    }
}

pub const PROP: Prop = Prop {
    id: "C17",
    gen,
    cfg,
    exec,
    describe,
    quick: 110000,
    thorough: 3_000_000,
    rule: "a case is one simulated run: 1-4 threads time closures of known simulated length, also nested, on shared and unshared metrics of all kinds while the wall clock steps and threads stall; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};

//! C05: each observation lands once, in the right histogram bucket.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::{Histogram, HistogramBuilder, MetricBuilder};

const OBS: u16 = 0;
const RAW: u16 = 1;
const CUM: u16 = 2;
const COUNT: u16 = 3;
const SUM: u16 = 4;
const SHOW: u16 = 5;
const GATHER: u16 = 6;
const STORM: u16 = 7; // value, how many

const INF: f64 = f64::INFINITY;
pub const BOUNDS: [&[f64]; 20] = [
    &[],
    &[1.0],
    &[8.0, 2.0, 4.0],
    &[16.0, 16.0, 64.0, 1024.0],
    &[-1.0, 0.0, 1.0],
    &[0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0],
    &[4.0, INF],
    &[INF, 32.0, -INF],
    &[4096.0, 4096.0, 4096.0],
    &[0.1, 0.2, 0.30000000000000004, 0.3],
    &[1e300, f64::MAX, -f64::MAX],
    &[0.0],
    &[100.0, 99.0, 98.0, 97.0, 96.0, 95.0],
    &[5e-324, 1e-300, 2.0],
    &[-8.0, -4.0, -2.5, -0.5, 0.5, 3.0],
    &[0.0, -0.0, 1.0, 0.0],
    &[-1e9, -16.0, 16.0, -32.0, 0.0, -0.0],
    &[7.0, 7.000000000000001, 6.999999999999999, 7.0],
    &[-0.0, 1.0],
    &[-5e-324, 5e-324, -0.0, 2.0, 4.0],
];
/// Bound list number `i`; those after BOUNDS are long.
pub fn bounds(i: i64) -> Vec<f64> {
    match i as usize {
        i if i < BOUNDS.len() => BOUNDS[i].to_vec(),
        20 => (0..100).map(|x| x as f64 * 2.5 - 40.0).collect(),
        21 => (0..60).map(|x| 0.001 * 1.7f64.powi(x)).collect(),
        22 => (0..400).rev().map(|x| x as f64).collect(),
        23 => (0..1500).map(|x| x as f64 - 500.0).collect(),
        _ => (0..4500).map(|x| x as f64 * 0.25).collect(),
    }
}
pub fn pick_bounds(r: &mut Rng) -> i64 {
    if r.chance(1, 400) {
        r.int(23, 24)
    } else if r.chance(1, 20) {
        r.int(20, 22)
    } else {
        r.int(0, 19)
    }
}
/// the bounds a histogram built with `b` must have
pub fn expected_bounds(b: &[f64]) -> Vec<f64> {
    let mut v = b.to_vec();
    v.push(INF);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
fn next_up(v: f64) -> f64 {
    if v == 0.0 { 5e-324 } else if v > 0.0 { f64::from_bits(v.to_bits() + 1) } else { f64::from_bits(v.to_bits() - 1) }
}

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C05");
    let b = pick_bounds(r);
    p.set("bounds", b);
    p.set("build", if [12, 20, 22, 23, 24].contains(&b) && r.chance(1, 2) { 4 } else { r.int(0, 3) });
    let storm = r.chance(1, 12);
    let dyadic = !storm && r.chance(1, 2);
    if !storm && _i % 2500 == 777 {
        // past the limits of small counters
        p.set("bulk", r.pick(&[300, 4000, 66_000, 70_000]));
    }
    p.set("dyadic", dyadic as i64);
    let mut bits = Bits::new(0);
    let exp = expected_bounds(&bounds(b));
    let nt = if storm && r.chance(1, 4) { crowd(r) } else { r.int(2, 4) as usize };
    let w: [u32; 7] = r.pick(&[[6, 2, 2, 1, 1, 1, 1], [8, 0, 0, 2, 1, 0, 0], [5, 3, 3, 1, 0, 1, 1]]);
    for t in 0..nt {
        for _ in 0..r.int(2, 8) {
            match r.weighted(&w) as u16 {
                OBS if storm => {
                    let v: f64 = r.pick(&[0.5, 1.0, 4.0, 100.0]);
                    p.push(t, STORM, &[v.to_bits() as i64, r.pick(&[1, 3, 10, 40])])
                }
                OBS => {
                    if dyadic {
                        if let Some(x) = if r.chance(3, 4) { bits.int() } else { bits.frac() } {
                            p.push(t, OBS, &[from_bits(x).to_bits() as i64, x as i64])
                        }
                    } else {
                        let v = match r.int(0, 6) {
                            0 | 1 | 2 => {
                                let x = exp[r.us(exp.len())];
                                match r.int(0, 3) {
                                    0 if x.is_finite() => next_up(x),
                                    1 if x.is_finite() => -next_up(-x),
                                    _ => x,
                                }
                            }
                            3 => r.int(-3, 300) as f64,
                            4 => r.int(0, 1000) as f64 / 100.0,
                            5 => r.pick(&[-0.0, 0.0]),
                            _ => r.pick(&[INF, -INF, f64::MAX, f64::MIN, 5e-324, -5e-324]),
                        };
                        p.push(t, OBS, &[v.to_bits() as i64, 0])
                    }
                }
                k => p.push(t, k, &[]),
            }
        }
    }
    p
}

#[derive(Clone, Debug)]
enum E {
    Obs(f64, u64),
    Raw(Vec<(f64, u64)>),
    Cum(Vec<(f64, u64)>),
    Count(u64),
    Sum(f64),
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let bounds: &'static [f64] = leak(bounds(p.p("bounds")));
    let exp: &'static Vec<f64> = leak(expected_bounds(bounds));
    let c: &'static Histogram = leak(sut(|| {
        let reg = registry(g);
        match p.p("build") {
            0 => HistogramBuilder::new("h").registry(reg).buckets(bounds.to_vec()).finish().unwrap(),
            1 => {
                let mut b = MetricBuilder::with_registry(reg).histogram("h");
                for x in bounds {
                    b.bucket(*x);
                }
                b.finish().unwrap()
            }
            3 => {
                // bit by bit, and another histogram is made before the last bounds are known
                let mut b = HistogramBuilder::new("h");
                let n = bounds.len();
                b.buckets(bounds[n / 2..].to_vec());
                for x in &bounds[..n / 4] {
                    b.bucket(*x);
                }
                let other = b.finish().unwrap();
                other.observe(1.0);
                b.buckets(bounds[n / 4..n / 2].to_vec());
                let h = b.registry(reg).finish().unwrap();
                other.observe(2.0);
                h
            }
            4 => HistogramBuilder::with_linear_buckets("h", bounds[0], bounds[1] - bounds[0], bounds.len()).registry(reg).finish().unwrap(),
            _ => {
                let h = HistogramBuilder::new("h").buckets(bounds.to_vec()).finish().unwrap();
                reg.register(h.collector());
                h
            }
        }
    }));
    let text = move |t: &str| -> (Vec<(f64, u64)>, u64, f64) {
        let (mut cum, mut count, mut sum) = (vec![], 0, 0.0);
        for (n, v) in sample_lines(t) {
            if n == "h_sum" {
                sum = v
            } else if n == "h_count" {
                count = v as u64
            } else if let Some(b) = n.strip_prefix("h_bucket{le=\"").and_then(|s| s.strip_suffix("\"}")) {
                match parse_num(b) {
                    Some(b) => cum.push((b, v as u64)),
                    None => fail!("unparsable", "bucket line {:?}", n),
                }
            } else {
                fail!("unparsable", "unexpected sample {:?}", n)
            }
        }
        (cum, count, sum)
    };
    let read = move |k: u16| match k {
        RAW => h.rec(E::Count(0), |e| *e = E::Raw(sut(|| c.buckets().iter().map(|b| (b.upper_bound(), b.count())).collect()))),
        CUM => h.rec(E::Count(0), |e| *e = E::Cum(sut(|| c.cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect()))),
        COUNT => h.rec(E::Count(0), |e| *e = E::Count(sut(|| c.count()))),
        SUM => h.rec(E::Count(0), |e| *e = E::Sum(sut(|| c.sum()))),
        SHOW => {
            let (a, b, s) = (h.begin(E::Count(0)), h.begin(E::Count(0)), h.begin(E::Count(0)));
            let t = sut(|| c.to_string());
            let (cum, count, sum) = text(&t);
            h.end_with(a, |e| *e = E::Cum(cum));
            h.end_with(b, |e| *e = E::Count(count));
            h.end_with(s, |e| *e = E::Sum(sum));
        }
        GATHER => {
            let (a, b, s) = (h.begin(E::Count(0)), h.begin(E::Count(0)), h.begin(E::Count(0)));
            match only(&views(&gather(g)), "h").val {
                Val::Hist { buckets, count, sum } => {
                    h.end_with(a, |e| *e = E::Cum(buckets));
                    h.end_with(b, |e| *e = E::Count(count));
                    h.end_with(s, |e| *e = E::Sum(sum));
                }
                _ => fail!("wrong-kind", "a histogram was gathered as something else"),
            }
        }
        _ => rt::herr("op"),
    };
    let bulk = p.p("bulk") as u64;
    if bulk > 0 {
        // many earlier observations of 0
        rt::set_faults(false);
        for _ in 0..bulk {
            sut(|| c.observe(0.0));
        }
        rt::set_faults(true);
    }
    run_plan(p, move |_t, o| match o.k {
        OBS => {
            let v = f64::from_bits(o.a[0] as u64);
            h.rec(E::Obs(v, o.a[1] as u64), |_| sut(|| c.observe(v)))
        }
        STORM => {
            let v = f64::from_bits(o.a[0] as u64);
            for _ in 0..o.a[1] {
                rt::boundary();
                h.rec(E::Obs(v, 0), |_| sut(|| c.observe(v)))
            }
        }
        k => read(k),
    });
    for k in [RAW, CUM, COUNT, SUM, SHOW, GATHER] {
        read(k);
    }
    let all = h.all();
    let dyadic = p.p("dyadic") != 0;
    let adds: Vec<Contrib> = all
        .iter()
        .filter_map(|r| match r.v {
            E::Obs(_, b) => Some(Contrib { inv: r.inv, ret: r.ret, bits: b, op: r.op }),
            _ => None,
        })
        .collect();
    // begin, end, value, index of its bucket
    let obs: Vec<(u64, u64, f64, usize)> = all
        .iter()
        .filter_map(|r| match r.v {
            E::Obs(v, _) => Some((r.inv, r.ret, v, exp.iter().position(|b| v <= *b).unwrap())),
            _ => None,
        })
        .collect();
    // number of observations completed before `inv` / begun before `ret`
    let range = |inv: u64, ret: u64| -> (u64, u64) {
        let lo = obs.iter().filter(|o| o.1 < inv).count() as u64;
        let hi = obs.iter().filter(|o| o.0 < ret).count() as u64;
        (lo + bulk, hi + bulk)
    };
    let zero = exp.iter().position(|b| 0.0 <= *b).unwrap();
    let inside = |what: &dyn Fn() -> String, n: u64, (lo, hi): (u64, u64), op: i32| {
        if n < lo {
            fail!("observation-lost", "{} read by op {}: {}, but {} such observations had completed before", what(), op, n, lo)
        }
        if n > hi {
            fail!("observation-invented", "{} read by op {}: {}, but only {} such observations had begun", what(), op, n, hi)
        }
    };
    for r in &all {
        match &r.v {
            E::Obs(..) => {}
            E::Raw(v) | E::Cum(v) => {
                let raw = matches!(r.v, E::Raw(_));
                let got: Vec<f64> = v.iter().map(|x| x.0).collect();
                if got != *exp {
                    fail!("bounds-wrong", "bounds {:?} read by op {}, expected {:?}", got, r.op, exp)
                }
                let mut rng = vec![(0u64, 0u64); v.len()];
                rng[zero] = (bulk, bulk);
                for o in &obs {
                    rng[o.3].0 += (o.1 < r.inv) as u64;
                    rng[o.3].1 += (o.0 < r.ret) as u64;
                }
                for i in 1..rng.len() {
                    if !raw {
                        rng[i] = (rng[i].0 + rng[i - 1].0, rng[i].1 + rng[i - 1].1)
                    }
                }
                for (i, x) in v.iter().enumerate() {
                    let rng = rng[i];
                    inside(&|| format!("{} {} (bounds {:?})", if raw { "bucket" } else { "cumulative bucket" }, x.0, exp), x.1, rng, r.op);
                    if !raw && i > 0 && v[i - 1].1 > x.1 {
                        fail!("not-cumulative", "cumulative counts {:?} read by op {}", v, r.op)
                    }
                }
            }
            E::Count(n) => inside(&|| "count".to_string(), *n, range(r.inv, r.ret), r.op),
            E::Sum(s) => {
                if dyadic {
                    if let Err((cls, m)) = check_subset(*s, r.inv, r.ret, &adds, 0) {
                        fail!(cls, "sum read by op {}: {}", r.op, m)
                    }
                }
            }
        }
    }
    // final sum for arbitrary values
    if !dyadic {
        let s = sut(|| c.sum());
        let (mut pos, mut neg, mut exact, mut mag) = (false, false, 0.0f64, 0.0f64);
        for o in &obs {
            pos |= o.2 == INF;
            neg |= o.2 == -INF;
            if o.2.is_finite() {
                exact += o.2 / 1e6;
                mag += o.2.abs() / 1e6;
            }
        }
        let ok = if pos && neg {
            s.is_nan()
        } else if mag > 1e300 {
            true // intermediate overflow depends on the order
        } else if pos {
            s == INF
        } else if neg {
            s == -INF
        } else {
            (s / 1e6 - exact).abs() <= mag * 1e-9 + 1e-300
        };
        if !ok {
            fail!("sum-wrong", "the sum ended at {:e}, expected {:e} (+inf observed: {}, -inf observed: {})", s, exact * 1e6, pos, neg)
        }
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    match o.k {
        OBS => format!("observe({:e})", f64::from_bits(o.a[0] as u64)),
        STORM => format!("{} x observe({:e})", o.a[1], f64::from_bits(o.a[0] as u64)),
        RAW => "buckets()".into(),
        CUM => "cumulative_buckets()".into(),
        COUNT => "count()".into(),
        SUM => "sum()".into(),
        SHOW => "to_string()".into(),
        _ => "gather".into(),
    }
}
fn cfg(_r: &mut Rng, p: &Plan, c: &mut Config) {
    allow_bulk(p, c);
    let n = bounds(p.p("bounds")).len() as u32 * (p.nops() as u32 + 6);
    c.cap1 += n * 20;
    c.cap2 += n * 200;
}

pub const PROP: Prop = Prop {
    id: "C05",
    gen,
    cfg,
    exec,
    describe,
    quick: 70000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-4 threads (in storms up to 66) observe up to 30 values in one histogram (25 bound lists, up to 5000 bounds: unsorted, repeated, negative, infinite, denormal) while others read; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};

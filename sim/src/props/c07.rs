//! C07: summary count, sum and samples conserve every observation.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::{MetricBuilder, Summary, SummaryBuilder};
use std::time::Duration;

const OBS: u16 = 0;
const COUNT: u16 = 1;
const SUM: u16 = 2;
const QUANT: u16 = 3;
const SHOW: u16 = 4;
const GATHER: u16 = 5;
const ADV: u16 = 6;
const CLONE: u16 = 7;
const SPECIAL: u16 = 8; // NaN, +Inf, -Inf; 0 only together with `bulk`
const SPECIALS: [f64; 4] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0];

/// window in ns; the first two never expire anything
const WINDOWS: [u64; 5] = [u64::MAX, 1 << 60, 0, 1_000, 2_000_000_000];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C07");
    let w = if r.chance(1, 2) { r.int(0, 1) } else { r.int(2, 4) };
    p.set("window", w);
    let mut bulk = bulk_size(r, _i);
    let equal = bulk == 0 && r.chance(1, 12);
    if equal {
        // equal values, some of them observed by several threads at one moment
        bulk = r.int(1, 12);
    }
    if bulk > 0 {
        p.set("bulk", bulk);
    }
    p.set("build", r.int(0, 3));
    let mut bits = Bits::new(0);
    let nt = r.int(2, 4) as usize;
    let ws: [u32; 8] = r.pick(&[[6, 2, 2, 2, 1, 1, 1, 1], [8, 1, 1, 4, 0, 0, 0, 0], [6, 0, 0, 2, 2, 2, 2, 0]]);
    let special = r.chance(1, 8);
    let mut infs = [false; 3];
    for t in 0..nt {
        for _ in 0..r.int(2, 9) {
            if equal && r.chance(1, 2) {
                p.push(t, SPECIAL, &[3]);
            }
            if special && r.chance(1, 8) {
                let k = r.us(3);
                if k == 0 || !infs[k] {
                    infs[k] = true;
                    p.push(t, SPECIAL, &[k as i64]);
                }
            }
            match r.weighted(&ws) as u16 {
                OBS => {
                    if let Some(x) = if r.chance(3, 4) { bits.int() } else { bits.frac() } {
                        p.push(t, OBS, &[x as i64, r.int(0, 3)])
                    }
                }
                ADV => p.push(t, ADV, &[r.pick(&[1, 1_000, 1_000_000_000, 3_000_000_000])]),
                k => p.push(t, k, &[]),
            }
        }
    }
    p
}

#[derive(Clone, Debug)]
enum E {
    Obs(u64),
    Special(f64),
    Count(u64),
    Sum(f64),
    Samples(Vec<f64>),
    None,
}

/// The i-th of n earlier observations. They add up to 0; the first ones differ from the last ones.
fn earlier(i: i64, n: i64) -> f64 {
    if n < 20 || i == n - n % 2 {
        0.0
    } else if i < n / 2 {
        -1.0
    } else {
        1.0
    }
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let w = WINDOWS[p.p("window") as usize];
    let win = if w == u64::MAX { Duration::new(u64::MAX, 999_999_999) } else { Duration::from_nanos(w) };
    let forever = p.p("window") < 2;
    let c: &'static Summary = leak(sut(|| {
        let reg = registry(g);
        match p.p("build") {
            0 => {
                let mut b = SummaryBuilder::new("s", win);
                for q in dense() {
                    b.quantile(q);
                }
                b.registry(reg).finish().unwrap()
            }
            1 => {
                let mut b = MetricBuilder::with_registry(reg).summary("s", win);
                for q in dense() {
                    b.quantile(q);
                }
                b.finish().unwrap()
            }
            3 => {
                // another summary is made before the last quantiles are known
                let mut b = SummaryBuilder::new("s", win);
                let q = dense();
                for q in &q[q.len() / 2..] {
                    b.quantile(*q);
                }
                let other = b.finish().unwrap();
                other.observe(1.0);
                for q in &q[..q.len() / 2] {
                    b.quantile(*q);
                }
                let s = b.registry(reg).finish().unwrap();
                other.observe(2.0);
                s
            }
            _ => {
                let mut b = SummaryBuilder::new("s", win);
                for q in dense() {
                    b.quantile(q);
                }
                let s = b.finish().unwrap();
                reg.register(s.collector());
                s
            }
        }
    }));
    let bulk = p.p("bulk");
    if bulk > 0 {
        // many earlier observations: they show in the count and in the ranks but not in the sum
        rt::set_faults(false);
        for i in 0..bulk {
            sut(|| c.observe(earlier(i, bulk)));
        }
        rt::set_faults(true);
    }
    let samples = move |q: &[(f64, f64)]| match dense_set(q) {
        _ if bulk > 0 => vec![],
        Ok(s) => s,
        Err(m) => fail!("samples-inconsistent", "{}", m),
    };
    let read = move |k: u16| match k {
        COUNT => h.rec(E::None, |e| *e = E::Count(sut(|| c.count()))),
        SUM => h.rec(E::None, |e| *e = E::Sum(sut(|| c.sum()))),
        QUANT => h.rec(E::None, |e| {
            let q: Vec<(f64, f64)> = sut(|| c.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect());
            if forever {
                *e = E::Samples(samples(&q))
            }
        }),
        SHOW | GATHER => {
            let (a, b, d) = (h.begin(E::None), h.begin(E::None), h.begin(E::None));
            let (mut q, mut count, mut sum) = (vec![], None, None);
            if k == SHOW {
                let t = sut(|| c.to_string());
                for (n, v) in sample_lines(&t) {
                    if n == "s_sum" {
                        sum = Some(v)
                    } else if n == "s_count" {
                        count = Some(v as u64)
                    } else if let Some(p) = n.strip_prefix("s{quantile=\"").and_then(|s| s.strip_suffix("\"}")).and_then(parse_num) {
                        q.push((p, v))
                    } else {
                        fail!("unparsable", "unexpected sample {:?}", n)
                    }
                }
            } else {
                match only(&views(&gather(g)), "s").val {
                    Val::Summ { q: x, count: n, sum: s } => {
                        q = x;
                        count = Some(n);
                        sum = Some(s)
                    }
                    _ => fail!("wrong-kind", "a summary was gathered as something else"),
                }
            }
            match (count, sum) {
                (Some(n), Some(s)) => {
                    h.end_with(a, |e| *e = E::Count(n));
                    h.end_with(b, |e| *e = E::Sum(s));
                }
                _ => fail!("count-missing", "count or sum is missing from the exposition"),
            }
            h.end_with(d, |e| {
                if forever {
                    *e = E::Samples(samples(&q))
                }
            });
        }
        _ => rt::herr("op"),
    };
    run_plan(p, move |_t, o| match o.k {
        OBS => {
            let v = from_bits(o.a[0] as u64);
            h.rec(E::Obs(o.a[0] as u64), |_| {
                if o.a[1] == 0 {
                    sut(|| c.clone().observe(v))
                } else {
                    sut(|| c.observe(v))
                }
            })
        }
        SPECIAL => {
            let v = SPECIALS[o.a[0] as usize];
            h.rec(E::Special(v), |_| sut(|| c.observe(v)))
        }
        ADV => rt::advance(o.a[0]),
        CLONE => sut(|| drop(c.clone())),
        k => read(k),
    });
    for k in [COUNT, SUM, QUANT, SHOW, GATHER, COUNT, SUM] {
        read(k);
    }
    let all = h.all();
    let adds: Vec<Contrib> = all
        .iter()
        .filter_map(|r| match r.v {
            E::Obs(b) => Some(Contrib { inv: r.inv, ret: r.ret, bits: b, op: r.op }),
            _ => None,
        })
        .collect();
    let specials: Vec<(u64, u64, f64)> = all
        .iter()
        .filter_map(|r| match r.v {
            E::Special(v) => Some((r.inv, r.ret, v)),
            _ => None,
        })
        .collect();
    if bulk > 0 && forever {
        let mut bag: Vec<f64> = (0..bulk).map(|i| earlier(i, bulk)).collect();
        bag.extend(adds.iter().map(|a| from_bits(a.bits)));
        bag.extend(specials.iter().map(|s| s.2).filter(|v| !v.is_nan()));
        let q: Vec<(f64, f64)> = sut(|| c.quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect());
        for &(f, v) in &q {
            if !rank_ok(f, v, &bag) {
                fail!("sample-lost", "quantile {} of {} earlier and {} other observations is {}", f, bulk, adds.len(), v)
            }
        }
    }
    for r in &all {
        match &r.v {
            E::Count(n) => {
                let lo = adds.iter().filter(|a| a.ret < r.inv).count() as u64;
                let hi = adds.iter().filter(|a| a.inv < r.ret).count() as u64;
                let lo = lo + bulk as u64 + specials.iter().filter(|a| a.1 < r.inv).count() as u64;
                let hi = hi + bulk as u64 + specials.iter().filter(|a| a.0 < r.ret).count() as u64;
                if *n < lo {
                    fail!("observation-lost", "count {} read by op {}, {} observations had completed before", n, r.op, lo)
                }
                if *n > hi {
                    fail!("observation-invented", "count {} read by op {}, only {} observations had begun", n, r.op, hi)
                }
            }
            E::Sum(s) if specials.iter().any(|a| a.0 < r.ret) => {
                // which of the special values may be, and which must be contained
                let may = |f: &dyn Fn(f64) -> bool| specials.iter().any(|a| a.0 < r.ret && f(a.2));
                let must = |f: &dyn Fn(f64) -> bool| specials.iter().any(|a| a.1 < r.inv && f(a.2));
                let pos = |v: f64| v == f64::INFINITY;
                let neg = |v: f64| v == f64::NEG_INFINITY;
                let nan = |v: f64| v.is_nan();
                let ok = if s.is_nan() {
                    may(&nan) || (may(&pos) && may(&neg))
                } else if must(&nan) || (must(&pos) && must(&neg)) {
                    false
                } else if s.is_infinite() {
                    if *s > 0.0 { may(&pos) && !must(&neg) } else { may(&neg) && !must(&pos) }
                } else {
                    !must(&pos) && !must(&neg) && check_subset(*s, r.inv, r.ret, &adds, 0).is_ok()
                };
                if !ok {
                    fail!("sum-wrong", "sum {} read by op {} with these special observations (begin, end, value): {:?}", s, r.op, specials)
                }
            }
            E::Sum(s) => {
                if let Err((cls, m)) = check_subset(*s, r.inv, r.ret, &adds, 0) {
                    fail!(cls, "sum read by op {}: {}", r.op, m)
                }
            }
            E::Samples(_) if bulk > 0 => {}
            E::Samples(s) => {
                for a in &adds {
                    let v = from_bits(a.bits);
                    let has = s.contains(&v);
                    if !has && a.ret < r.inv {
                        fail!("sample-lost", "the quantiles read by op {} do not contain {} observed by op {}: {:?}", r.op, v, a.op, s)
                    }
                    if has && a.inv > r.ret {
                        fail!("sample-early", "the quantiles read by op {} contain {} which had not been observed", r.op, v)
                    }
                }
                for a in &specials {
                    let has = s.contains(&a.2);
                    if !has && !a.2.is_nan() && a.1 < r.inv {
                        fail!("sample-lost", "the quantiles read by op {} do not contain {} observed before: {:?}", r.op, a.2, s)
                    }
                    if has && a.0 > r.ret {
                        fail!("sample-early", "the quantiles read by op {} contain {} which had not been observed", r.op, a.2)
                    }
                }
                for v in s {
                    if !specials.iter().any(|a| a.2 == *v) && !adds.iter().any(|a| from_bits(a.bits) == *v) {
                        fail!("sample-invented", "the quantiles read by op {} contain {} which nobody observed", r.op, v)
                    }
                }
            }
            _ => {}
        }
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    match o.k {
        OBS => format!("observe({})", from_bits(o.a[0] as u64)),
        COUNT => "count()".into(),
        SUM => "sum()".into(),
        QUANT => "quantiles()".into(),
        SHOW => "to_string()".into(),
        GATHER => "gather".into(),
        SPECIAL => format!("observe({})", SPECIALS[o.a[0] as usize]),
        ADV => format!("{} ns pass", o.a[0]),
        _ => "clone and drop".into(),
    }
}
fn cfg(r: &mut Rng, p: &Plan, c: &mut Config) {
    allow_bulk(p, c);
    if r.chance(1, 3) {
        time_cfg(r, c, &[1, 1_000, 2_000_000_000], &[-3_600_000_000_000, 3_600_000_000_000]);
    }
}

fn many1() -> Plan {
    let mut r = Rng(1);
    r.next();
    let mut p = gen(&mut r, 0);
    p.set("bulk", 70_000);
    p.set("window", 0);
    p
}

pub const PROP: Prop = Prop {
    id: "C07",
    gen,
    cfg,
    exec,
    describe,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-4 threads observe up to 30 unique, special or equal values in one summary (never expiring or expiring window) while others read count, sum, quantiles, text and gathers; non-trivial: a preemption inside a call or a clock movement occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[("many-1", many1)],
    stub: "thread scheduler, futex, clocks, heap",
};

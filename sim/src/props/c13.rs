//! C13: gathering is safe while labels are being changed.
use crate::common::*;
use crate::driver::Prop;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use crate::{expo, fail};
use prometrics::metric::MetricKind;
use prometrics::metrics::*;
use std::time::Duration;

const INS: u16 = 0; // metric, name, value
const REM: u16 = 1; // metric, name
const CLR: u16 = 2; // metric
const GATHER: u16 = 3; // text? which gatherer

const LN: [&str; 3] = ["x", "y", "z"];
const KINDS: [MetricKind; 4] = [MetricKind::Counter, MetricKind::Gauge, MetricKind::Histogram, MetricKind::Summary];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C13");
    // each metric's labels are written by one thread only
    let big = r.chance(1, 6);
    let nm = if big { r.int(21, 40) } else { r.int(1, 6) };
    let kinds = r.int(1, 4);
    let k0 = r.int(0, 3);
    for i in 0..nm {
        p.obj(0, &[(k0 + i % kinds) % 4, if r.chance(1, 2) { r.int(0, 3) } else { -1 }]);
    }
    let nt = r.int(2, 4) as usize;
    // a second gatherer of the same metrics, in which they are in the opposite order
    let two = r.chance(1, 4);
    p.set("two", two as i64);
    for t in 0..nt {
        for _ in 0..r.int(2, if big { 12 } else { 7 }) {
            let mine: Vec<i64> = (0..nm).filter(|m| *m as usize % nt == t).collect();
            let k = r.weighted(&[5, 2, 1, if t == 0 { 8 } else if two { 4 } else { 2 }]) as u16;
            if k == GATHER {
                p.push(t, GATHER, &[r.chance(1, 3) as i64, (two && r.chance(1, 2)) as i64])
            } else if !mine.is_empty() {
                let m = mine[r.us(mine.len())];
                p.push(t, k, &[m, r.int(0, 2), r.int(0, 2)])
            }
        }
    }
    p
}

enum M {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
type L = Vec<(String, String)>;
#[derive(Clone, Debug)]
enum E {
    /// metric and the labels it has afterwards
    Set(usize, L),
    Gather(Vec<Fam>),
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let start = |o: &Op| -> L {
        if o.a[1] < 0 {
            vec![]
        } else {
            vec![("x".into(), o.a[1].to_string())]
        }
    };
    // the i-th metric of a kind is worth 2^i
    let mut cnt = [0; 4];
    let rank: &'static Vec<i32> = leak(
        p.objs
            .iter()
            .map(|o| {
                cnt[o.a[0] as usize] += 1;
                cnt[o.a[0] as usize] - 1
            })
            .collect(),
    );
    let ms: &'static Vec<M> = leak(
        p.objs
            .iter()
            .enumerate()
            .map(|(i, o)| {
                sut(|| {
                    let v = 2f64.powi(rank[i]);
                    macro_rules! mk {
                        ($b:expr) => {{
                            let mut b = $b;
                            for (n, v) in start(o) {
                                b.label(&n, &v);
                            }
                            b.registry(registry(g)).finish().unwrap()
                        }};
                    }
                    match o.a[0] {
                        0 => M::C({
                            let c: Counter = mk!(CounterBuilder::new("c"));
                            c.add(v).unwrap();
                            c
                        }),
                        1 => M::G(mk!({
                            let mut b = GaugeBuilder::new("g");
                            b.initial_value(v);
                            b
                        })),
                        2 => M::H({
                            let c: Histogram = mk!(HistogramBuilder::new("h"));
                            c.observe(v);
                            c
                        }),
                        _ => M::S({
                            let c: Summary = mk!(SummaryBuilder::new("s", Duration::from_secs(60)));
                            c.observe(v);
                            c
                        }),
                    }
                })
            })
            .collect(),
    );
    let g2 = if p.p("two") != 0 { Some(gatherer()) } else { None };
    if let Some(g2) = g2 {
        let r = registry(g2);
        for m in ms.iter().rev() {
            sut(|| match m {
                M::C(c) => r.register(c.collector()),
                M::G(c) => r.register(c.collector()),
                M::H(c) => r.register(c.collector()),
                M::S(c) => r.register(c.collector()),
            })
        }
    }
    // labels now, known to the only writer
    let now: &'static Vec<std::sync::Mutex<L>> = leak(p.objs.iter().map(|o| std::sync::Mutex::new(start(o))).collect());
    let do_gather = move |text: bool, second: bool| {
        h.rec(E::Gather(vec![]), |e| {
            let f = gather(if second { g2.unwrap_or(g) } else { g });
            // the result must keep what it has; read it a little later
            rt::yield_now();
            *e = E::Gather(if text {
                let t = sut(|| f.to_text());
                match expo::parse(&t, true) {
                    Ok(v) => v,
                    Err(m) => fail!("text-malformed", "{}", m),
                }
            } else {
                views(&f)
            })
        })
    };
    run_plan(p, move |_t, o| {
        if o.k == GATHER {
            return do_gather(o.a[0] != 0, o.a[1] != 0);
        }
        let m = o.a[0] as usize;
        let (n, v) = (LN[o.a[1] as usize], o.a[2].to_string());
        let l = {
            let mut l = now[m].lock().unwrap();
            match o.k {
                INS => {
                    l.retain(|x| x.0 != n);
                    l.push((n.to_string(), v.clone()));
                    l.sort();
                }
                REM => l.retain(|x| x.0 != n),
                _ => l.clear(),
            }
            l.clone()
        };
        h.rec(E::Set(m, l), |_| {
            sut(|| {
                macro_rules! go {
                    ($c:expr) => {{
                        let mut c = $c.clone();
                        let mut l = c.labels_mut();
                        match o.k {
                            INS => l.insert(n, &v).unwrap(),
                            REM => l.remove(n),
                            _ => l.clear(),
                        }
                    }};
                }
                match &ms[m] {
                    M::C(c) => go!(c),
                    M::G(c) => go!(c),
                    M::H(c) => go!(c),
                    M::S(c) => go!(c),
                }
            })
        })
    });
    do_gather(false, false);
    do_gather(true, false);
    if g2.is_some() {
        do_gather(false, true);
    }
    let all = h.all();
    for r in &all {
        let fams = match &r.v {
            E::Gather(f) => f,
            _ => continue,
        };
        let mut seen = vec![0; p.objs.len()];
        for f in fams {
            for (i, s) in f.series.iter().enumerate() {
                if f.series[..i].iter().any(|t| t.labels == s.labels) {
                    fail!("series-twice", "op {}: {} {} has two series with labels {:?}", r.op, f.kind, f.name, s.labels)
                }
                let v = match &s.val {
                    Val::Num(v) => *v,
                    Val::Hist { sum, count, .. } | Val::Summ { sum, count, .. } => {
                        if (*sum as u64).count_ones() as u64 != *count {
                            fail!("count-wrong", "op {}: {} {}{:?} has sum {} but count {}", r.op, f.kind, f.name, s.labels, sum, count)
                        }
                        *sum
                    }
                };
                if v.fract() != 0.0 || !(0.0..1.0995116e12).contains(&v) {
                    fail!("value-wrong", "op {}: {} {}{:?} has value {}", r.op, f.kind, f.name, s.labels, v)
                }
                let mut bits = v as u64;
                for (m, o) in p.objs.iter().enumerate() {
                    if KINDS[o.a[0] as usize] != f.kind || bits >> rank[m] & 1 == 0 {
                        continue;
                    }
                    bits &= !(1 << rank[m]);
                    seen[m] += 1;
                    // label sets this metric can have had during the gather
                    let mut c = vec![start(o)];
                    for x in &all {
                        if let E::Set(n, l) = &x.v {
                            if *n == m && x.inv < r.ret {
                                if x.ret < r.inv {
                                    c.clear()
                                }
                                c.push(l.clone())
                            }
                        }
                    }
                    if !c.contains(&s.labels) {
                        fail!("labels-wrong", "op {}: {} {} is exposed with {:?}; during the gather it had {:?}", r.op, f.kind, m, s.labels, c)
                    }
                }
                if bits != 0 {
                    fail!("value-wrong", "op {}: {} {}{:?} has value {}", r.op, f.kind, f.name, s.labels, v)
                }
            }
        }
        for (m, n) in seen.iter().enumerate() {
            if *n != 1 {
                fail!(if *n == 0 { "metric-missing" } else { "metric-twice" }, "op {}: {} {} is exposed {} times", r.op, KINDS[p.objs[m].a[0] as usize], m, n)
            }
        }
    }
}

fn describe(o: &Op, setup: bool) -> String {
    if setup {
        return format!("{} with {}", KINDS[o.a[0] as usize], if o.a[1] < 0 { "no labels".into() } else { format!("x={}", o.a[1]) });
    }
    match o.k {
        INS => format!("insert {}={} into metric {}", LN[o.a[1] as usize], o.a[2], o.a[0]),
        REM => format!("remove {} from metric {}", LN[o.a[1] as usize], o.a[0]),
        CLR => format!("clear the labels of metric {}", o.a[0]),
        _ => format!("{}{}", if o.a[1] != 0 { "second gatherer: " } else { "" }, if o.a[0] != 0 { "gather().to_text()" } else { "gather" }),
    }
}
fn cfg(_r: &mut Rng, _p: &Plan, _c: &mut Config) {}

pub const PROP: Prop = Prop {
    id: "C13",
    gen,
    cfg,
    exec,
    describe,
    quick: 70000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-4 threads change the labels of 1-40 metrics of all kinds and gather with one gatherer or two of opposite order; every metric's value is unique, so that each gather is decoded completely; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, atomic_immut, its other dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};

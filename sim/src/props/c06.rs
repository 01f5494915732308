//! C06: every exposed histogram is consistent within itself.
use super::c05::{bounds, expected_bounds, pick_bounds};
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::{Histogram, HistogramBuilder};

const OBS: u16 = 0;
const SHOW: u16 = 1;
const GATHER: u16 = 2;

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C06");
    let nh = r.int(1, 3);
    p.set("labels", r.int(0, 2));
    for _ in 0..nh {
        p.obj(0, &[pick_bounds(r)]);
    }
    if r.chance(1, 100) {
        // many histograms of the same identity, each with one observation already
        p.set("crowd", r.pick(&[10, 40, 70, 140]));
        p.set("crowdb", r.int(0, 19));
    }
    let nt = r.int(2, 4) as usize;
    let readers = r.int(1, 2) as usize;
    for t in 0..nt {
        for _ in 0..r.int(2, 8) {
            let x = r.int(0, nh - 1);
            let rd = if t < readers { 3 } else { 1 };
            match r.weighted(&[if t < readers { 1 } else { 6 }, rd, rd]) as u16 {
                OBS => {
                    let b = expected_bounds(&bounds(p.objs[r.us(nh as usize)].a[0]));
                    let y = b[r.us(b.len())];
                    let v = match r.int(0, 3) {
                        0 if y.is_finite() => y + 1.0,
                        1 => r.int(-2, 200) as f64 / 4.0,
                        _ => y,
                    };
                    p.push(t, OBS, &[x, v.to_bits() as i64])
                }
                k => p.push(t, k, &[x]),
            }
        }
    }
    p
}

/// a rendered histogram: buckets, sum, count
type Text = (Vec<(f64, u64)>, u64);
#[derive(Clone, Debug)]
enum E {
    Obs(usize, f64),
    Text(Option<usize>, Text),
}
fn parse(t: &str, op: i32, labels: i64) -> Text {
    let (mut cum, mut count) = (vec![], None);
    let suffix = ["}", ",a=\"b\"}", ",a=\"b\",c=\"d\"}"][labels as usize];
    for (n, v) in sample_lines(t) {
        if n.starts_with("h_sum") {
        } else if n.starts_with("h_count") {
            if count.is_some() {
                fail!("series-count", "two counts in one exposition: {}", t)
            }
            count = Some(v as u64)
        } else if let Some(b) = n.strip_prefix("h_bucket{le=\"").and_then(|s| s.strip_suffix(suffix)).and_then(|s| s.strip_suffix('"')).and_then(parse_num) {
            cum.push((b, v as u64))
        } else {
            fail!("unparsable", "unexpected sample {:?}", n)
        }
    }
    let count = count.unwrap_or_else(|| fail!("count-missing", "op {}: no count in {:?}", op, t));
    if cum.last().map(|b| b.0) != Some(f64::INFINITY) {
        fail!("no-inf-bucket", "op {}: the last bucket is not +Inf: {:?}", op, cum)
    }
    for w in cum.windows(2) {
        if !(w[0].0 < w[1].0) {
            fail!("bounds-not-increasing", "op {}: bounds {} then {}: {:?}", op, w[0].0, w[1].0, cum)
        }
        if w[0].1 > w[1].1 {
            fail!("not-cumulative", "op {}: counts {} then {}: {:?}", op, w[0].1, w[1].1, cum)
        }
    }
    if cum.last().unwrap().1 != count {
        fail!("count-inconsistent", "op {}: _count is {} but the +Inf bucket {}: {:?}", op, count, cum.last().unwrap().1, cum)
    }
    (cum, count)
}

/// what the i-th of many histograms has observed
fn crowd_value(i: i64) -> f64 {
    (i % 41) as f64 * 0.75 - 10.0
}
fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let labels = p.p("labels");
    let hs: &'static Vec<Histogram> = leak(
        p.objs
            .iter()
            .map(|o| {
                sut(|| {
                    let mut b = HistogramBuilder::new("h");
                    if labels > 0 {
                        b.label("a", "b");
                    }
                    if labels > 1 {
                        b.label("c", "d");
                    }
                    b.registry(registry(g)).buckets(bounds(o.a[0])).finish().unwrap()
                })
            })
            .collect(),
    );
    let crowd: &'static Vec<Histogram> = leak(
        (0..p.p("crowd"))
            .map(|i| {
                sut(|| {
                    let mut b = HistogramBuilder::new("h");
                    if labels > 0 {
                        b.label("a", "b");
                    }
                    if labels > 1 {
                        b.label("c", "d");
                    }
                    let h = b.registry(registry(g)).buckets(bounds(p.p("crowdb"))).finish().unwrap();
                    h.observe(crowd_value(i));
                    h
                })
            })
            .collect(),
    );
    let read = move |k: u16, x: usize, op: i32| {
        if k == SHOW {
            h.rec(E::Text(None, (vec![], 0)), |e| {
                let t = sut(|| hs[x].to_string());
                *e = E::Text(Some(x), parse(&t, op, labels))
            })
        } else {
            h.rec(E::Text(None, (vec![], 0)), |e| {
                let t = {
                    let f = gather(g);
                    sut(|| f.to_text())
                };
                *e = E::Text(None, parse(&t, op, labels))
            })
        }
    };
    run_plan(p, move |_t, o| match o.k {
        OBS => {
            let v = f64::from_bits(o.a[1] as u64);
            h.rec(E::Obs(o.a[0] as usize, v), |_| sut(|| hs[o.a[0] as usize].observe(v)))
        }
        k => read(k, o.a[0] as usize, o.id as i32),
    });
    read(GATHER, 0, OP_FINAL);
    for x in 0..hs.len() {
        read(SHOW, x, OP_FINAL);
    }
    let all = h.all();
    let cb = expected_bounds(&bounds(p.p("crowdb")));
    let crowd_places: Vec<f64> = (0..crowd.len()).map(|i| cb.iter().cloned().find(|x| crowd_value(i as i64) <= *x).unwrap()).collect();
    // the bucket of histogram m which holds v
    let mut places = std::collections::BTreeMap::new();
    for o in &all {
        if let E::Obs(m, v) = o.v {
            let hb = expected_bounds(&bounds(p.objs[m].a[0]));
            places.insert((m, v.to_bits()), hb.iter().cloned().find(|x| v <= *x).unwrap());
        }
    }
    for r in &all {
        let (who, (cum, _)) = match &r.v {
            E::Text(w, t) => (w, t),
            _ => continue,
        };
        let members: Vec<usize> = match who {
            Some(x) => vec![*x],
            None => (0..hs.len()).collect(),
        };
        let mut exp: Vec<f64> = members.iter().flat_map(|&m| expected_bounds(&bounds(p.objs[m].a[0]))).collect();
        let with_crowd = who.is_none() && !crowd.is_empty();
        if with_crowd {
            exp.extend(cb.iter());
        }
        exp.sort_by(|a, b| a.partial_cmp(b).unwrap());
        exp.dedup();
        let got: Vec<f64> = cum.iter().map(|c| c.0).collect();
        if got != exp {
            fail!("bounds-wrong", "op {}: bounds {:?}, expected {:?}", r.op, got, exp)
        }
        let mut part: Vec<(f64, u64, u64)> = vec![]; // bound of the bucket an observation is in, completed, begun
        for o in &all {
            if let E::Obs(m, v) = o.v {
                if members.contains(&m) {
                    part.push((places[&(m, v.to_bits())], (o.ret < r.inv) as u64, (o.inv < r.ret) as u64))
                }
            }
        }
        for &(b, n) in cum {
            let (mut lo, mut hi) = (0, 0);
            if with_crowd {
                let n = crowd_places.iter().filter(|x| **x <= b).count() as u64;
                lo += n;
                hi += n;
            }
            for x in part.iter().filter(|x| x.0 <= b) {
                lo += x.1;
                hi += x.2;
            }
            if n < lo {
                fail!("observation-lost", "op {}: bucket {} shows {} of {} completed observations", r.op, b, n, lo)
            }
            if n > hi {
                fail!("observation-invented", "op {}: bucket {} shows {}, only {} observations had begun", r.op, b, n, hi)
            }
        }
    }
}

fn describe(o: &Op, setup: bool) -> String {
    if setup {
        return {
            let s = format!("{:?}", bounds(o.a[0]));
            format!("histogram h with bounds {}", s.chars().take(200).collect::<String>())
        };
    }
    match o.k {
        OBS => format!("h{}.observe({:e})", o.a[0], f64::from_bits(o.a[1] as u64)),
        SHOW => format!("h{}.to_string()", o.a[0]),
        _ => "gather().to_text()".into(),
    }
}
fn cfg(_r: &mut Rng, p: &Plan, c: &mut Config) {
    // every gather visits all buckets, with many scheduling points for each
    let all: usize = p.objs.iter().map(|o| bounds(o.a[0]).len()).sum::<usize>() + p.p("crowd") as usize * bounds(p.p("crowdb")).len();
    let n = (all + p.p("crowd") as usize) as u32 * (p.nops() as u32 + 5);
    c.cap1 = c.cap1.saturating_add(n.saturating_mul(20));
    c.cap2 = c.cap2.saturating_add(n.saturating_mul(5000));
}

pub const PROP: Prop = Prop {
    id: "C06",
    gen,
    cfg,
    exec,
    describe,
    quick: 70000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-4 threads observe and render 1-3 histograms (in some runs crowds) of one identity with different bounds; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};

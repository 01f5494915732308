//! C09: quantile queries are total and return true ranks.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::{Summary, SummaryBuilder};
use std::time::Duration;

const OBS: u16 = 0;
const QUANT: u16 = 1;
const SHOW: u16 = 2;
const GATHER: u16 = 3;
const TEXT: u16 = 4;

const QS: [f64; 16] = [0.0, 1.0, 0.5, 0.25, 0.75, 0.9, 0.95, 0.99, 0.999, 0.1, 1.0 / 3.0, 2.0 / 3.0, 5e-324, 0.9999999999999999, 0.01, -0.0];
const VS: [f64; 12] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, 1.0, 2.0, -5.5, 1e300, 5e-324, f64::MIN];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C09");
    let nh = r.pick(&[1, 1, 2, 3]);
    for _ in 0..nh {
        // a set of quantiles as a bit mask, and whether to add them twice
        let mask = match r.int(0, 5) {
            0 => 0,
            1 => 2,
            2 => 3,
            _ => r.int(0, 65535) & r.int(0, 65535),
        };
        p.obj(0, &[mask, r.chance(1, 3) as i64]);
    }
    p.set("odd", r.int(0, 2));
    let bulk = bulk_size(r, _i);
    if bulk > 0 {
        p.set("bulk", bulk);
    }
    let nt = r.int(1, 4) as usize;
    let one = r.chance(1, 3); // a single sample is a corner case of its own
    for t in 0..nt {
        for _ in 0..r.int(1, if one { 3 } else { 8 }) {
            let x = r.int(0, nh - 1);
            match r.weighted(&[if one { 1 } else { 6 }, 3, 1, 2, 1]) as u16 {
                OBS => {
                    let odd = p.p("odd");
                    let v = match odd {
                        0 => r.int(-50, 50) as f64,
                        1 if r.chance(1, 2) => VS[r.us(VS.len())],
                        1 => r.int(-3, 3) as f64,
                        _ => r.int(0, 100000) as f64 / 1000.0,
                    };
                    p.push(t, OBS, &[x, v.to_bits() as i64])
                }
                k => p.push(t, k, &[x]),
            }
        }
    }
    p
}
fn quantiles(o: &Op) -> Vec<f64> {
    let mut v: Vec<f64> = (0..16).filter(|i| o.a[0] >> i & 1 == 1).map(|i| QS[i]).collect();
    if o.a[1] != 0 {
        let mut w = v.clone();
        w.reverse();
        v.extend(w);
    }
    v
}
fn distinct(mut v: Vec<f64>) -> Vec<f64> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

#[derive(Clone, Debug)]
enum E {
    Obs(usize, f64),
    Read(Option<usize>, Vec<(f64, f64)>),
    None,
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let ss: &'static Vec<Summary> = leak(
        p.objs
            .iter()
            .map(|o| {
                sut(|| {
                    let mut b = SummaryBuilder::new("s", Duration::from_secs(1 << 40));
                    for q in quantiles(o) {
                        b.quantile(q);
                    }
                    b.registry(registry(g)).finish().unwrap()
                })
            })
            .collect(),
    );
    let parse = |t: &str| -> Vec<(f64, f64)> {
        sample_lines(t)
            .into_iter()
            .filter_map(|(n, v)| {
                let q = n.strip_prefix("s{quantile=\"")?.strip_suffix("\"}")?;
                match parse_num(q) {
                    Some(q) => Some((q, v)),
                    None => fail!("unparsable", "sample {:?}", n),
                }
            })
            .collect()
    };
    let read = move |k: u16, x: usize| {
        h.rec(E::None, |e| {
            *e = match k {
                QUANT => E::Read(Some(x), sut(|| ss[x].quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect())),
                SHOW => {
                    let t = sut(|| ss[x].to_string());
                    E::Read(Some(x), parse(&t))
                }
                GATHER => match only(&views(&gather(g)), "s").val {
                    Val::Summ { q, .. } => E::Read(None, q),
                    _ => fail!("wrong-kind", "a summary was gathered as something else"),
                },
                _ => {
                    let f = gather(g);
                    let t = sut(|| f.to_text());
                    E::Read(None, parse(&t))
                }
            }
        })
    };
    let mut base = vec![];
    if p.p("bulk") > 0 {
        rt::set_faults(false);
        let mut x = Rng(p.p("bulk") as u64);
        for _ in 0..p.p("bulk") {
            let v = x.int(-3000, 3000) as f64 / 8.0;
            base.push(v);
            sut(|| ss[0].observe(v));
        }
        rt::set_faults(true);
    }
    run_plan(p, move |_t, o| {
        let x = o.a[0] as usize;
        match o.k {
            OBS => {
                let v = f64::from_bits(o.a[1] as u64);
                h.rec(E::Obs(x, v), |_| sut(|| ss[x].observe(v)))
            }
            k => read(k, x),
        }
    });
    for x in 0..ss.len() {
        read(QUANT, x);
    }
    read(GATHER, 0);
    let all = h.all();
    for r in &all {
        let (who, q) = match &r.v {
            E::Read(w, q) => (w, q),
            _ => continue,
        };
        let exp = distinct(match who {
            Some(x) => quantiles(&p.objs[*x]),
            None => p.objs.iter().flat_map(quantiles).collect(),
        });
        let mut must = if who.map_or(true, |w| w == 0) { base.clone() } else { vec![] };
        let mut may = vec![];
        for o in &all {
            if let E::Obs(x, v) = o.v {
                if who.map_or(true, |w| w == x) && !v.is_nan() {
                    if o.ret < r.inv {
                        must.push(v)
                    } else if o.inv < r.ret {
                        may.push(v)
                    }
                }
            }
        }
        if q.is_empty() && (must.is_empty() || exp.is_empty()) {
            continue;
        }
        let got: Vec<f64> = q.iter().map(|x| x.0).collect();
        if got != exp {
            fail!("quantiles-wrong", "op {}: quantiles {:?} returned, {:?} configured ({} samples)", r.op, got, exp, must.len() + may.len())
        }
        if may.len() > if base.is_empty() { 10 } else { 2 } {
            continue;
        }
        // some set of samples between the completed and the begun observations must explain the result
        let mut found = false;
        for m in 0..1u32 << may.len() {
            let mut s = must.clone();
            s.extend((0..may.len()).filter(|i| m >> i & 1 == 1).map(|i| may[i]));
            if !s.is_empty() && q.iter().all(|&(p, v)| rank_ok(p, v, &s)) {
                found = true;
                break;
            }
        }
        if !found {
            fail!("rank-wrong", "op {}: result {:?} does not fit the samples {:?} (in flight: {:?})", r.op, q, &must[..must.len().min(40)], may)
        }
    }
}

fn describe(o: &Op, setup: bool) -> String {
    if setup {
        return format!("summary with quantiles {:?}", quantiles(o));
    }
    match o.k {
        OBS => format!("s{}.observe({:e})", o.a[0], f64::from_bits(o.a[1] as u64)),
        QUANT => format!("s{}.quantiles()", o.a[0]),
        SHOW => format!("s{}.to_string()", o.a[0]),
        GATHER => "gather".into(),
        _ => "gather().to_text()".into(),
    }
}
fn cfg(_r: &mut Rng, p: &Plan, c: &mut Config) {
    allow_bulk(p, c)
}

fn many1() -> Plan {
    let mut r = Rng(1);
    r.next();
    let mut p = gen(&mut r, 0);
    p.set("bulk", 70_000);
    p
}

pub const PROP: Prop = Prop {
    id: "C09",
    gen,
    cfg,
    exec,
    describe,
    quick: 90000,
    thorough: 2_500_000,
    rule: "a case is one simulated run: 1-4 threads observe and query 1-3 summaries of one identity with random quantile sets (0, 1, repeated) and samples (NaN, infinite, repeated); non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[("many-1", many1)],
    stub: "thread scheduler, futex, clocks, heap",
};

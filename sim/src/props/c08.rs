//! C08: summary quantiles cover exactly the sliding time window.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metrics::{Summary, SummaryBuilder};
use std::time::Duration;

const OBS: u16 = 0;
const QUANT: u16 = 1;
const SHOW: u16 = 2;
const GATHER: u16 = 3;
const ADV: u16 = 4;
const WALL: u16 = 5;
const NAN: u16 = 6;
const TEXT: u16 = 7;

const S: i64 = 1_000_000_000;
const WINDOWS: [i64; 10] = [i64::MAX, 0, 1, 1_000, 1_000_000, S, 10 * S, 3600 * S, 86400 * S, LONG];
/// stands for a window whose nanoseconds do not fit into 64 bits
const LONG: i64 = i64::MAX - 1;
const JUMPS: [i64; 8] = [-1, -S, -11 * S, -3601 * S, -400 * 86400 * S, S / 2, 11 * S, 400 * 86400 * S];

fn steps(w: i64) -> Vec<i64> {
    let w = if w >= LONG { 86400 * S } else { w.max(1) };
    vec![1, (w / 2).max(1), (w - 1).max(1), w, w + 1, w * 2, w / 7 + 1]
}
fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C08");
    let bulk = bulk_size(r, _i);
    if bulk > 0 {
        // many samples, added in three portions with time passing in between
        p.set("bulk", bulk);
        p.set("gap1", r.pick(&[0, 0, 1, 2, 3]));
        p.set("gap2", r.pick(&[0, 0, 1, 2, 3]));
    }
    let nh = r.pick(&[1, 1, 2, 3]);
    let main = r.int(0, 9);
    for _ in 0..nh {
        p.obj(0, &[if r.chance(2, 3) { main } else { r.int(0, 9) }]);
    }
    let st = steps(WINDOWS[main as usize]);
    let mut bits = Bits::new(0);
    let nt = r.int(1, 4) as usize;
    let ws: [u32; 8] = r.pick(&[[6, 3, 1, 2, 4, 2, 1, 1], [6, 4, 0, 0, 4, 0, 0, 0], [5, 1, 1, 4, 3, 3, 1, 1]]);
    for t in 0..nt {
        for _ in 0..r.int(3, 10) {
            let x = r.int(0, nh - 1);
            match r.weighted(&ws) as u16 {
                OBS => {
                    if let Some(b) = bits.int() {
                        p.push(t, OBS, &[x, b as i64])
                    }
                }
                ADV => p.push(t, ADV, &[0, st[r.us(st.len())]]),
                WALL => p.push(t, WALL, &[0, r.pick(&JUMPS)]),
                k => p.push(t, k, &[x]),
            }
        }
    }
    p
}

#[derive(Clone, Debug)]
enum E {
    /// summary, value, simulated monotonic time at call and return
    Obs(usize, f64, u64, u64),
    Read(Option<usize>, Vec<f64>, u64, u64),
    None,
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let g = gatherer();
    let ss: &'static Vec<Summary> = leak(
        p.objs
            .iter()
            .map(|o| {
                let w = WINDOWS[o.a[0] as usize];
                let win = if w == i64::MAX { Duration::new(u64::MAX, 999_999_999) } else if w == LONG { Duration::from_secs(18_446_744_074) } else { Duration::from_nanos(w as u64) };
                sut(|| {
                    let mut b = SummaryBuilder::new("s", win);
                    for q in dense() {
                        b.quantile(q);
                    }
                    b.registry(registry(g)).finish().unwrap()
                })
            })
            .collect(),
    );
    let bulk = p.p("bulk");
    let samples = move |q: &[(f64, f64)]| match dense_set(q) {
        _ if bulk > 0 => vec![],
        Ok(s) => s,
        Err(m) => fail!("samples-inconsistent", "{}", m),
    };
    // (value, time at call, time at return)
    let mut many: Vec<(f64, u64, u64)> = vec![];
    if bulk > 0 {
        rt::set_faults(false);
        let w = WINDOWS[p.objs[0].a[0] as usize];
        let mut x = Rng(bulk as u64);
        for (n, gap) in [(bulk / 3, p.p("gap1")), (bulk / 3, p.p("gap2")), (bulk - bulk / 3 * 2, 0)] {
            for _ in 0..n {
                let v = x.int(0, 1 << 40) as f64 / 1024.0;
                let t0 = rt::mono();
                sut(|| ss[0].observe(v));
                many.push((v, t0, rt::mono()));
            }
            if gap > 0 {
                let w = if w >= LONG { S } else { w.max(1) };
                rt::advance([0, w / 2, w, w + 1][gap as usize].max(1));
            }
        }
        rt::set_faults(true);
    }
    let parse = |t: &str| -> Vec<(f64, f64)> {
        sample_lines(t).into_iter().filter_map(|(n, v)| n.strip_prefix("s{quantile=\"").and_then(|s| s.strip_suffix("\"}")).and_then(parse_num).map(|q| (q, v))).collect()
    };
    let read = move |k: u16, x: usize| {
        h.rec(E::None, |e| {
            let t0 = rt::mono();
            let (who, q) = match k {
                QUANT => (Some(x), sut(|| ss[x].quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect())),
                SHOW => {
                    let t = sut(|| ss[x].to_string());
                    (Some(x), parse(&t))
                }
                GATHER => match only(&views(&gather(g)), "s").val {
                    Val::Summ { q, .. } => (None, q),
                    _ => fail!("wrong-kind", "a summary was gathered as something else"),
                },
                _ => {
                    let f = gather(g);
                    let t = sut(|| f.to_text());
                    (None, parse(&t))
                }
            };
            *e = E::Read(who, samples(&q), t0, rt::mono())
        })
    };
    run_plan(p, move |_t, o| {
        let x = o.a[0] as usize;
        match o.k {
            OBS => h.rec(E::None, |e| {
                let v = from_bits(o.a[1] as u64);
                let t0 = rt::mono();
                sut(|| ss[x].observe(v));
                *e = E::Obs(x, v, t0, rt::mono())
            }),
            NAN => sut(|| ss[x].observe(f64::NAN)),
            ADV => rt::advance(o.a[1]),
            WALL => rt::wall_step(o.a[1]),
            k => read(k, x),
        }
    });
    rt::set_faults(false);
    for x in 0..ss.len() {
        read(QUANT, x);
    }
    read(GATHER, 0);
    read(TEXT, 0);
    let all = h.all();
    if bulk > 0 {
        // every quantile of the final state against the bag of samples that are certainly young enough
        for o in &all {
            if let E::Obs(0, v, a, b) = o.v {
                many.push((v, a, b))
            }
        }
        let w = WINDOWS[p.objs[0].a[0] as usize];
        let q0 = rt::mono();
        let q: Vec<(f64, f64)> = sut(|| ss[0].quantiles().into_iter().map(|(q, v)| (q.as_f64(), v)).collect());
        let q1 = rt::mono();
        let inside = |t: u64, n: u64| w == i64::MAX || n - t.min(n) <= w as u64;
        let sure: Vec<f64> = many.iter().filter(|m| inside(m.1, q1)).map(|m| m.0).collect();
        let maybe = many.iter().filter(|m| inside(m.2, q0)).count();
        if sure.len() == maybe {
            if q.len() != if maybe == 0 { 0 } else { 64 } {
                fail!("samples-inconsistent", "{} quantiles returned with {} samples in the window", q.len(), maybe)
            }
            for &(f, v) in &q {
                if !rank_ok(f, v, &sure) {
                    let lt = sure.iter().filter(|x| **x < v).count();
                    fail!("sample-missing", "quantile {} of {} samples in the window of {} ns is {}, above {} of them", f, sure.len(), w, v, lt)
                }
            }
        }
        return;
    }
    for r in &all {
        let (who, s, q0, q1) = match &r.v {
            E::Read(w, s, a, b) => (w, s, *a, *b),
            _ => continue,
        };
        let mut known = vec![];
        for o in &all {
            if let E::Obs(x, v, o0, o1) = o.v {
                known.push(v);
                let has = s.contains(&v);
                if who.map_or(false, |w| w != x) {
                    if has {
                        fail!("sample-foreign", "op {} read {} which belongs to another summary", r.op, v)
                    }
                    continue;
                }
                let w = WINDOWS[p.objs[x].a[0] as usize];
                // the age of the sample at the time of the query lies between these
                let min_age = q0.saturating_sub(o1);
                let max_age = q1 - o0.min(q1);
                if has && o.inv > r.ret {
                    fail!("sample-early", "op {} read {} which had not been observed", r.op, v)
                }
                if has && w != i64::MAX && min_age > w as u64 {
                    fail!("sample-expired", "op {} read {} (op {}) which was at least {} ns old, the window is {} ns", r.op, v, o.op, min_age, w)
                }
                if !has && o.ret < r.inv && (w == i64::MAX || max_age <= w as u64) {
                    fail!("sample-missing", "op {} did not read {} (op {}) which was at most {} ns old, the window is {} ns; it read {:?}", r.op, v, o.op, max_age, w, s)
                }
            }
        }
        for v in s {
            if !known.contains(v) {
                fail!("sample-invented", "op {} read {} which nobody observed", r.op, v)
            }
        }
    }
}

fn describe(o: &Op, setup: bool) -> String {
    if setup {
        return format!("summary with a window of {} ns", WINDOWS[o.a[0] as usize]);
    }
    match o.k {
        OBS => format!("s{}.observe({})", o.a[0], from_bits(o.a[1] as u64)),
        QUANT => format!("s{}.quantiles()", o.a[0]),
        SHOW => format!("s{}.to_string()", o.a[0]),
        GATHER => "gather".into(),
        ADV => format!("{} ns pass", o.a[1]),
        WALL => format!("the wall clock is stepped by {} ns", o.a[1]),
        NAN => format!("s{}.observe(NaN)", o.a[0]),
        _ => "gather().to_text()".into(),
    }
}
fn cfg(r: &mut Rng, p: &Plan, c: &mut Config) {
    let w = WINDOWS[p.objs.first().map_or(0, |o| o.a[0]) as usize];
    let st = steps(w);
    time_cfg(r, c, &st, &JUMPS);
    if r.chance(1, 3) {
        c.p_wall = 0;
    }
    allow_bulk(p, c);
    // keep the monotonic clock early sometimes, so that `now - window` is before its origin
    if r.chance(1, 3) {
        c.mono0 = 1_000_000;
    }
}

fn many1() -> Plan {
    let mut r = Rng(1);
    r.next();
    let mut p = gen(&mut r, 0);
    p.set("bulk", 70_000);
    p.objs[0].a[0] = 0;
    p
}
fn many2() -> Plan {
    let mut r = Rng(2);
    r.next();
    let mut p = gen(&mut r, 0);
    p.set("bulk", 70_000);
    p
}

pub const PROP: Prop = Prop {
    id: "C08",
    gen,
    cfg,
    exec,
    describe,
    quick: 90000,
    thorough: 2_500_000,
    rule: "a case is one simulated run: 1-4 threads observe and query 1-3 summaries of one identity (windows 0 ns to unlimited) while time passes, threads stall and the wall clock is stepped; non-trivial: a preemption inside a call or a clock movement occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[("many-1", many1), ("many-2", many2)],
    stub: "thread scheduler, futex, clocks, heap",
};

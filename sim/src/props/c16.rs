//! C16: timestamps are atomic and follow the wall clock.
use super::c14::H;
use crate::common::*;
use crate::driver::Prop;
use crate::expo;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::timestamp::{Timestamp, TimestampMut};
use std::time::{Duration, UNIX_EPOCH};

const SET: u16 = 0; // metric, value
const NOW: u16 = 1; // metric
const TIME: u16 = 2; // metric, ns since the epoch, further seconds
const CLEAR: u16 = 3; // metric
const GET: u16 = 4; // metric
const SHOW: u16 = 5; // metric
const GATHER: u16 = 6; // text?

const MS: i64 = 1_000_000;
const S: i64 = 1000 * MS;
const H: i64 = 3600 * S;

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C16");
    let nm = r.pick(&[1, 1, 2, 3]);
    p.set("nm", nm);
    p.set("kind", r.int(0, 3));
    let nt = r.int(2, 4) as usize;
    for t in 0..nt {
        for _ in 0..r.int(1, 20 / nt as i64) {
            let k = r.weighted(&[6, 5, 3, 3, 6, 2, 3]) as u16;
            let m = r.int(0, nm - 1);
            let v = match k {
                SET if r.chance(1, 12) => i64::MIN,
                SET => r.pick(&[0, 1, -1, i64::MAX, i64::MIN + 1, 1700000000000, -62135596800000, r.0 as i64 >> 12, 2, 3, 4, 5]),
                TIME => r.pick(&[0, 1, -1, MS, -MS, MS - 1, 1 - MS, 1_700_000_000_123_456_789, -1_700_000_000_123_456_789, i64::MAX, i64::MIN + 1, r.0 as i64 >> 8]),
                GATHER => r.int(0, 1),
                _ => 0,
            };
            // times far beyond what fits into 64 bits of nanoseconds
            let far = if k == TIME && r.chance(1, 6) { r.pick(&[1, 40, 1000, 1_000_000_000]) * 4_611_686 * v.signum() } else { 0 };
            p.push(t, k, &[m, v, far]);
        }
    }
    p
}

#[derive(Clone, Debug)]
enum E {
    /// metric, values it may have been set to
    W(usize, Vec<Option<i64>>),
    /// the lowest number: not every implementation can hold it
    Lowest(usize, bool),
    R(usize, Option<i64>),
    Gather(Option<i64>),
}
struct Ts;
impl Model for Ts {
    type S = Option<i64>;
    type O = E;
    fn step(&self, s: &Self::S, e: &E) -> Vec<Self::S> {
        match e {
            E::W(_, v) => v.clone(),
            E::Lowest(_, true) => vec![*s, Some(i64::MIN)],
            E::Lowest(..) => vec![*s],
            E::R(_, v) | E::Gather(v) => {
                if v == s {
                    vec![*s]
                } else {
                    vec![]
                }
            }
        }
    }
}
/// whole milliseconds next to a time in nanoseconds
fn ms(ns: i64) -> Vec<Option<i64>> {
    let f = ns.div_euclid(MS);
    if ns.rem_euclid(MS) == 0 {
        vec![Some(f)]
    } else {
        vec![Some(f), Some(f + 1)]
    }
}
fn ts(h: &H) -> &Timestamp {
    match h {
        H::C(m) => m.timestamp(),
        H::G(m) => m.timestamp(),
        H::H(m) => m.timestamp(),
        H::S(m) => m.timestamp(),
    }
}
fn ts_mut(h: &mut H) -> TimestampMut<'_> {
    match h {
        H::C(m) => m.timestamp_mut(),
        H::G(m) => m.timestamp_mut(),
        H::H(m) => m.timestamp_mut(),
        H::S(m) => m.timestamp_mut(),
    }
}

fn exec(p: &'static Plan) {
    let h: &'static Hist<E> = leak(Hist::new());
    let nm = p.p("nm") as usize;
    let g = gatherer();
    let ms_: &'static Vec<H> = leak((0..nm).map(|_| sut(|| H::new(p.p("kind"), "m", &[], Some(registry(g))))).collect());
    let do_gather = move |text: bool| {
        h.rec(E::Gather(None), |e| {
            let f = gather(g);
            let v = if text {
                let t = sut(|| f.to_text());
                match expo::parse(&t, false) {
                    Ok(v) => v,
                    Err(m) => rt::fail("text-malformed", &m),
                }
            } else {
                views(&f)
            };
            *e = E::Gather(only(&v, "m").ts)
        })
    };
    run_plan(p, move |_t, o| {
        let m = o.a[0] as usize;
        match o.k {
            GATHER => do_gather(o.a[1] != 0),
            GET => h.rec(E::R(m, None), |e| *e = E::R(m, sut(|| ts(&ms_[m]).get()))),
            SHOW => {
                let f: &dyn Fn() -> String = match &ms_[m] {
                    H::C(x) => &move || x.to_string(),
                    H::G(x) => &move || x.to_string(),
                    _ => return,
                };
                h.rec(E::R(m, None), |e| {
                    let t = sut(f);
                    let w: Vec<&str> = t.split_whitespace().collect();
                    *e = match (w.len(), w.last().and_then(|x| x.parse().ok())) {
                        (2, _) => E::R(m, None),
                        (3, Some(v)) => E::R(m, Some(v)),
                        _ => rt::fail("text-malformed", &format!("op {}: the metric is rendered as {:?}", o.id, t)),
                    }
                })
            }
            _ => {
                let mut c = sut(|| ms_[m].clone());
                h.rec(E::W(m, vec![]), |e| {
                    if o.k == SET && o.a[1] == i64::MIN {
                        *e = E::Lowest(m, rt::sut_catch(|| ts_mut(&mut c).set(o.a[1])).is_ok());
                        return;
                    }
                    let vals = match o.k {
                        SET => {
                            sut(|| ts_mut(&mut c).set(o.a[1]));
                            vec![Some(o.a[1])]
                        }
                        CLEAR => {
                            sut(|| ts_mut(&mut c).clear());
                            vec![None]
                        }
                        NOW => {
                            let mark = rt::wall_mark();
                            sut(|| ts_mut(&mut c).set_now());
                            let mut v: Vec<Option<i64>> = rt::wall_values(mark).into_iter().flat_map(ms).collect();
                            v.sort();
                            v.dedup();
                            v
                        }
                        _ => {
                            let d = Duration::from_nanos(o.a[1].unsigned_abs());
                            let d = d + Duration::from_secs(o.a[2].unsigned_abs());
                            let t = if o.a[1] < 0 { UNIX_EPOCH - d } else { UNIX_EPOCH + d };
                            sut(|| ts_mut(&mut c).set_time(t));
                            ms(o.a[1]).into_iter().map(|v| v.map(|v| v + o.a[2] * 1000)).collect()
                        }
                    };
                    *e = E::W(m, vals)
                });
                sut(|| drop(c));
            }
        }
    });
    for m in 0..nm {
        h.rec(E::R(m, None), |e| *e = E::R(m, sut(|| ts(&ms_[m]).get())));
    }
    do_gather(false);
    do_gather(true);
    let all = h.all();
    let show = || {
        let mut s = String::new();
        for r in &all {
            s += &format!("\n  t{} op {} [{},{}] {:?}", r.tid, r.op, r.inv, r.ret, r.v);
        }
        s
    };
    for m in 0..nm {
        let hist: Vec<(u64, u64, E)> = all
            .iter()
            .filter(|r| match &r.v {
                E::W(n, _) | E::R(n, _) | E::Lowest(n, _) => *n == m,
                E::Gather(_) => nm == 1,
            })
            .map(|r| (r.inv, r.ret, r.v.clone()))
            .collect();
        if !linearizable(&Ts, None, &hist) {
            rt::fail("not-linearizable", &format!("no order of the operations on the timestamp of metric {} explains their results:{}", m, show()))
        }
    }
    if nm == 1 {
        return;
    }
    for r in &all {
        let v = match &r.v {
            E::Gather(v) => *v,
            _ => continue,
        };
        // what each member can have been during the gather
        let poss: Vec<Vec<Option<i64>>> = (0..nm)
            .map(|m| {
                let mut c = vec![];
                let mut over = false;
                for w in &all {
                    if let E::W(n, vals) = &w.v {
                        if *n != m || w.inv > r.ret {
                            continue;
                        }
                        over |= w.ret < r.inv;
                        let later = |x: &Rec<E>| matches!(&x.v, E::W(k, _) if *k == m) && x.inv > w.ret && x.ret < r.inv;
                        if !all.iter().any(later) {
                            c.extend(vals.iter().cloned());
                        }
                    }
                }
                if !over {
                    c.push(None)
                }
                if all.iter().any(|w| matches!(w.v, E::Lowest(n, true) if n == m)) {
                    c.push(Some(i64::MIN))
                }
                c
            })
            .collect();
        let ok = poss.iter().enumerate().any(|(i, c)| {
            c.contains(&v) && poss.iter().enumerate().all(|(j, d)| j == i || d.iter().any(|x| *x <= v))
        });
        if !ok {
            rt::fail(
                "aggregated-timestamp",
                &format!("op {} [{},{}]: the series of {} metrics has the timestamp {:?}; the members' possible timestamps are {:?}{}", r.op, r.inv, r.ret, nm, v, poss, show()),
            )
        }
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    let m = o.a[0];
    match o.k {
        SET => format!("metric {}: set({})", m, o.a[1]),
        NOW => format!("metric {}: set_now()", m),
        TIME => format!("metric {}: set_time(epoch {:+} ns {:+} s)", m, o.a[1], o.a[2]),
        CLEAR => format!("metric {}: clear()", m),
        GET => format!("metric {}: get()", m),
        SHOW => format!("metric {}: to_string() (counter, gauge)", m),
        _ => format!("gather{}", if o.a[1] != 0 { ".to_text()" } else { "" }),
    }
}
fn cfg(r: &mut Rng, _p: &Plan, c: &mut Config) {
    time_cfg(r, c, &[1, 1000, MS / 2, MS, 3 * MS + 1, S], &[-1, 1, -MS, MS, -S, -3 * S - 1, H, -H]);
    match r.int(0, 3) {
        0 => c.wall0 = r.int(-2 * S, 2 * S),
        1 => c.wall0 = r.int(-50 * 365 * 24, 0) * H,
        _ => {}
    }
}

pub const PROP: Prop = Prop {
    id: "C16",
    gen,
    cfg,
    exec,
    describe,
    quick: 140000,
    thorough: 4_000_000,
    rule: "a case is one simulated run: 2-4 threads operate on the timestamps of 1-3 metrics while the wall clock steps across the epoch; histories are checked by linearization; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap",
};

//! C19: a panic in user code never damages the registry or metrics.
use super::c17::{make, M};
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, sut_catch, user, Config};
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Registry};
use std::sync::Mutex;

const REG: u16 = 0; // kind, gatherer, path
const COL: u16 = 1; // gatherer, panics in calls (bit mask), mode, ends at call + 8 * registers before a panic
const GATHER: u16 = 2; // gatherer
const DROP: u16 = 3; // op which registered
const TIME: u16 = 4; // shared metric, panics?
const TRACK: u16 = 5; // panics?, nested
const UPDATE: u16 = 6; // shared metric
const READ: u16 = 7;

const KN: [&str; 4] = ["counter", "gauge", "histogram", "summary"];
const GN: [&str; 2] = ["A", "default"];
const MODE: [&str; 4] = ["in collect()", "in the iterator", "in the iterator after one metric", "when dropped"];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C19");
    let nt = r.int(2, 4) as usize;
    let g0 = r.int(0, 1);
    let single = r.chance(2, 3);
    let w = r.pick(&[[6, 5, 8, 1, 2, 1, 2, 1], [3, 2, 4, 0, 6, 4, 4, 3], [5, 7, 9, 2, 0, 0, 1, 0]]);
    let mut regs = vec![];
    for t in 0..nt {
        for _ in 0..r.int(2, 7) {
            let g = if single { g0 } else { r.int(0, 1) };
            match r.weighted(&w) as u16 {
                REG => {
                    p.push(t, REG, &[r.int(0, 3), g, r.int(0, 2)]);
                    regs.push(p.threads[t].last().unwrap().id as i64);
                }
                COL => p.push(t, COL, &[g, r.pick(&[0, 1, 1, 2, 3, 4, 5, 7, 9]), r.int(0, 3), r.pick(&[0, 0, 1, 2, 3]) + 8 * r.int(0, 1)]),
                GATHER => p.push(t, GATHER, &[g]),
                DROP => {
                    if !regs.is_empty() {
                        let i = r.us(regs.len());
                        p.push(t, DROP, &[regs.swap_remove(i)])
                    }
                }
                TIME => p.push(t, TIME, &[r.int(0, 3), r.chance(2, 3) as i64]),
                TRACK => p.push(t, TRACK, &[r.chance(2, 3) as i64, r.int(0, 1)]),
                UPDATE => p.push(t, UPDATE, &[r.int(0, 3)]),
                k => p.push(t, k, &[]),
            }
        }
    }
    p
}

#[derive(Clone, Debug)]
struct Item {
    name: String,
    g: usize,
    reg: (u64, u64),
    drop: u64,
    op: i32,
    col: Option<usize>,
}
#[derive(Clone, Debug)]
struct Call {
    who: usize,
    tid: usize,
    seq: u64,
    /// 0 ended, 1 metrics returned, 2 panicked
    what: u8,
}
#[derive(Clone, Debug)]
struct Gth {
    g: usize,
    tid: usize,
    op: i32,
    inv: u64,
    ret: u64,
    names: Option<Vec<(String, f64)>>,
}
#[derive(Default)]
struct World {
    items: Mutex<Vec<Item>>,
    calls: Mutex<Vec<Call>>,
    gathers: Mutex<Vec<Gth>>,
    handles: Mutex<Vec<(i32, M)>>,
    /// planned panics: thread, moment, token
    planned: Mutex<Vec<(usize, u64, u64)>>,
    cols: Mutex<Vec<((u64, u64), usize, i32)>>,
}

/// Raises a panic of the plan.
fn planned(w: &World) -> ! {
    let t = user(|| {
        let t = rt::seq();
        w.planned.lock().unwrap().push((rt::tid(), t, t));
        rt::stat(rt::ST_PANIC, 1);
        t
    });
    std::panic::panic_any(t)
}

struct Col {
    w: &'static World,
    id: usize,
    calls: i64,
    mask: i64,
    mode: i64,
    end_at: i64,
    metrics: Vec<Counter>,
    reg: Option<(Registry, usize, i32)>,
    dropping: bool,
}
struct It {
    v: std::vec::IntoIter<Metric>,
    w: &'static World,
    panic_in: i64,
    slot: usize,
}
impl Iterator for It {
    type Item = Metric;
    fn next(&mut self) -> Option<Metric> {
        if self.panic_in == 0 {
            user(|| self.w.calls.lock().unwrap()[self.slot].what = 2);
            planned(self.w)
        }
        self.panic_in -= 1;
        self.v.next()
    }
}
impl Collect for Col {
    type Metrics = It;
    fn collect(&mut self) -> Option<It> {
        self.calls += 1;
        let end = self.end_at != 0 && self.calls >= self.end_at;
        let boom = !end && self.calls <= 8 && self.mask >> (self.calls - 1) & 1 == 1;
        let what = if end {
            0
        } else if boom && (self.mode == 0 || self.mode == 3) {
            2
        } else {
            1
        };
        let slot = user(|| {
            let mut c = self.w.calls.lock().unwrap();
            c.push(Call { who: self.id, tid: rt::tid(), seq: rt::seq(), what });
            c.len() - 1
        });
        if end {
            self.dropping = self.mode == 3;
            return None;
        }
        if boom {
            if let Some((reg, g, op)) = self.reg.take() {
                let name = format!("r{}", op);
                let i = user(|| {
                    let mut v = self.w.items.lock().unwrap();
                    v.push(Item { name: name.clone(), g, reg: (rt::seq(), u64::MAX), drop: u64::MAX, op, col: None });
                    v.len() - 1
                });
                let c = CounterBuilder::new(&name).registry(reg).finish().unwrap();
                c.increment();
                user(|| {
                    self.w.items.lock().unwrap()[i].reg.1 = rt::seq();
                    self.w.handles.lock().unwrap().push((-op, M::C(c)));
                });
            }
            if what == 2 {
                planned(self.w)
            }
        }
        let v: Vec<Metric> = self.metrics.iter().cloned().map(Metric::from).collect();
        Some(It { v: v.into_iter(), w: self.w, panic_in: if boom { self.mode - 1 } else { -1 }, slot })
    }
}
impl Drop for Col {
    fn drop(&mut self) {
        if self.dropping && !std::thread::panicking() {
            self.dropping = false;
            planned(self.w)
        }
    }
}

/// Runs a call during which user code may panic; returns None if it did.  The panic must reach us.
fn guarded<T>(w: &World, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    let inv = rt::seq();
    let r = sut_catch(f);
    let mine: Vec<u64> = w.planned.lock().unwrap().iter().filter(|p| p.0 == rt::tid() && p.1 > inv).map(|p| p.2).collect();
    match r {
        Ok(v) => {
            if !mine.is_empty() {
                fail!("panic-swallowed", "op {}: user code panicked during {}, but it returned normally", rt::cur_op(), what)
            }
            Some(v)
        }
        Err(e) => {
            let t = e.downcast_ref::<u64>().cloned();
            match (mine.last(), t) {
                (Some(a), Some(b)) if *a == b => None,
                (None, _) => fail!("unexpected-panic", "op {}: {} panicked by itself: {}", rt::cur_op(), what, rt::last_panic()),
                _ => fail!("wrong-panic", "op {}: {} panicked with something else than the panic of the user code: {}", rt::cur_op(), what, rt::last_panic()),
            }
        }
    }
}

fn exec(p: &'static Plan) {
    let w: &'static World = leak(World::default());
    let a = gatherer();
    let rega: &'static Vec<Registry> = leak((0..p.threads.len() + 1).map(|_| registry(a)).collect());
    let shared: &'static Vec<M> = leak((0..4).map(|k| sut(|| make(k, "shared", None))).collect());
    let tracked: &'static Gauge = leak(sut(|| Gauge::new("tracked").unwrap()));
    let registry_of = move |g: i64, path: i64| -> Registry {
        if g == 1 {
            default_registry()
        } else if path == 1 {
            rega[rt::tid()].clone()
        } else {
            a.lock().unwrap_or_else(|e| e.into_inner()).registry()
        }
    };
    let do_gather = move |g: usize, op: i32| -> bool {
        let (inv, tid) = (rt::seq(), rt::tid());
        let m = if g == 1 { sut(default_gatherer) } else { a };
        let f: Option<MetricFamilies> = guarded(w, "a gather", || m.lock().unwrap_or_else(|e| e.into_inner()).gather());
        let ret = rt::seq();
        let names = f.map(|f| {
            views(&f)
                .iter()
                .flat_map(|f| {
                    f.series.iter().map(move |s| {
                        let n = match &s.val {
                            Val::Num(v) => *v,
                            Val::Hist { count, .. } | Val::Summ { count, .. } => *count as f64,
                        };
                        (f.name.clone(), n)
                    })
                })
                .collect()
        });
        let ok = names.is_some();
        w.gathers.lock().unwrap().push(Gth { g, tid, op, inv, ret, names });
        ok
    };
    // updates of the shared metrics: certain, possible (a panicked timed closure may or may not count)
    let certain: &'static Mutex<[u64; 4]> = leak(Mutex::new([0; 4]));
    let maybe: &'static Mutex<[u64; 4]> = leak(Mutex::new([0; 4]));
    run_plan(p, move |_t, o| {
        let op = o.id as i32;
        match o.k {
            REG => {
                let name = format!("m{}", op);
                let i = {
                    let mut v = w.items.lock().unwrap();
                    v.push(Item { name: name.clone(), g: o.a[1] as usize, reg: (rt::seq(), u64::MAX), drop: u64::MAX, op, col: None });
                    v.len() - 1
                };
                let m = sut(|| {
                    if o.a[2] == 2 {
                        let m = make(o.a[0], &name, None);
                        let r = registry_of(o.a[1], 0);
                        match &m {
                            M::C(m) => r.register(m.collector()),
                            M::G(m) => r.register(m.collector()),
                            M::H(m) => r.register(m.collector()),
                            M::S(m) => r.register(m.collector()),
                        }
                        m
                    } else {
                        make(o.a[0], &name, Some(registry_of(o.a[1], o.a[2])))
                    }
                });
                w.items.lock().unwrap()[i].reg.1 = rt::seq();
                sut(|| match &m {
                    M::C(m) => m.increment(),
                    M::G(m) => m.set(1.0),
                    M::H(m) => m.observe(1.0),
                    M::S(m) => m.observe(1.0),
                });
                w.handles.lock().unwrap().push((op, m));
            }
            COL => {
                let g = o.a[0] as usize;
                let id = {
                    let mut v = w.cols.lock().unwrap();
                    v.push(((rt::seq(), u64::MAX), g, op));
                    v.len() - 1
                };
                let names: Vec<String> = (0..2).map(|i| format!("u{}_{}", op, i)).collect();
                let metrics: Vec<Counter> = names
                    .iter()
                    .map(|n| {
                        sut(|| {
                            let c = Counter::new(n).unwrap();
                            c.increment();
                            c
                        })
                    })
                    .collect();
                let inv = rt::seq();
                let idx: Vec<usize> = names
                    .iter()
                    .map(|n| {
                        let mut v = w.items.lock().unwrap();
                        v.push(Item { name: n.clone(), g, reg: (inv, u64::MAX), drop: u64::MAX, op, col: Some(id) });
                        v.len() - 1
                    })
                    .collect();
                let reg = if o.a[3] >= 8 { Some((rega[rt::tid()].clone(), 0, op)) } else { None };
                let c = Col { w, id, calls: 0, mask: o.a[1], mode: o.a[2], end_at: o.a[3] % 8, metrics, reg, dropping: false };
                sut(|| registry_of(o.a[0], o.a[2] % 2).register(c));
                let ret = rt::seq();
                w.cols.lock().unwrap()[id].0 .1 = ret;
                for i in idx {
                    w.items.lock().unwrap()[i].reg.1 = ret;
                }
            }
            GATHER => {
                do_gather(o.a[0] as usize, op);
            }
            DROP => {
                let m = {
                    let mut h = w.handles.lock().unwrap();
                    h.iter().position(|x| x.0 == o.a[0] as i32).map(|i| h.remove(i))
                };
                if let Some(m) = m {
                    for i in w.items.lock().unwrap().iter_mut().filter(|i| i.op == o.a[0] as i32) {
                        i.drop = rt::seq();
                    }
                    sut(|| drop(m));
                }
            }
            TIME => {
                let m = o.a[0] as usize;
                let r = guarded(w, "a timed closure", || {
                    shared[m].time(|| {
                        user(|| {
                            rt::yield_now();
                            rt::advance(1_000_000_000)
                        });
                        if o.a[1] != 0 {
                            planned(w)
                        }
                    })
                });
                if r.is_some() { certain } else { maybe }.lock().unwrap()[m] += 1;
            }
            TRACK => {
                guarded(w, "a tracked closure", || {
                    tracked.track_inprogress(|| {
                        user(rt::yield_now);
                        let inner = || {
                            if o.a[0] != 0 {
                                planned(w)
                            }
                        };
                        if o.a[1] != 0 {
                            tracked.track_inprogress(inner)
                        } else {
                            inner()
                        }
                    })
                });
            }
            UPDATE => {
                let m = o.a[0] as usize;
                sut(|| match &shared[m] {
                    M::C(m) => m.add(1.0).unwrap(),
                    M::G(m) => m.set(1.0),
                    M::H(m) => m.observe(1.0),
                    M::S(m) => m.observe(1.0),
                });
                certain.lock().unwrap()[m] += 1;
            }
            _ => sut(|| {
                for m in shared {
                    match m {
                        M::C(m) => drop(m.to_string()),
                        M::G(m) => drop(m.to_string()),
                        M::H(m) => drop((m.to_string(), m.count())),
                        M::S(m) => drop((m.to_string(), m.count(), m.quantiles())),
                    }
                }
            }),
        }
    });
    // until two gathers in a row are complete
    for g in 0..2 {
        let mut good = 0;
        for i in 0..200 {
            good = if do_gather(g, OP_FINAL + i) { good + 1 } else { 0 };
            if good == 2 {
                break;
            }
        }
        if good < 2 {
            rt::herr("panics do not end")
        }
    }
    let t = sut(|| tracked.value());
    if t != 0.0 {
        fail!("metric-damaged", "the gauge of finished and panicked tracked closures is {}", t)
    }
    let (c, m) = (certain.lock().unwrap().clone(), maybe.lock().unwrap().clone());
    for i in 0..4 {
        let n = sut(|| match &shared[i] {
            M::C(m) => m.value().floor() as u64,
            M::G(_) => c[i],
            M::H(m) => m.count(),
            M::S(m) => m.count(),
        });
        // stalls may lengthen a timed closure, so that a counter has only a lower bound
        if n < c[i] || (i > 0 && n > c[i] + m[i]) {
            fail!("metric-damaged", "the shared {} has {} after {} completed updates and {} panicked ones", KN[i], n, c[i], m[i])
        }
    }
    verify(w);
}

fn verify(w: &World) {
    let items = w.items.lock().unwrap().clone();
    let gathers = w.gathers.lock().unwrap().clone();
    let calls = w.calls.lock().unwrap().clone();
    let cols = w.cols.lock().unwrap().clone();
    for g in &gathers {
        let at = format!("gather of op {} on gatherer {}", g.op, GN[g.g]);
        let mine = |c: &&Call| c.tid == g.tid && c.seq > g.inv && c.seq < g.ret;
        for (u, c) in cols.iter().enumerate() {
            let n = calls.iter().filter(mine).filter(|c| c.who == u).count();
            if n > 1 || (n > 0 && c.1 != g.g) {
                fail!("collector-calls", "{}: the collector of op {} was called {} times", at, c.2, n)
            }
            let ended = calls.iter().any(|c| c.who == u && c.what == 0 && c.seq < g.ret);
            if g.names.is_some() && c.1 == g.g && c.0 .1 < g.inv && !ended && n == 0 {
                fail!("registration-lost", "{}: the collector of op {} was not called", at, c.2)
            }
        }
        let names = match &g.names {
            Some(n) => n,
            None => continue,
        };
        for it in &items {
            let found: Vec<&(String, f64)> = names.iter().filter(|n| n.0 == it.name).collect();
            if it.g != g.g {
                if !found.is_empty() {
                    fail!("metric-foreign", "{}: {} is registered elsewhere", at, it.name)
                }
                continue;
            }
            if found.len() > 1 || found.iter().any(|f| f.1 > 1.0) {
                fail!("metric-twice", "{}: {} appears as {:?}", at, it.name, found)
            }
            let must = it.reg.1 < g.inv && it.drop > g.ret && it.col.map_or(true, |u| calls.iter().filter(mine).any(|c| c.who == u && c.what == 1));
            if must && found.is_empty() {
                fail!("registration-lost", "{}: {} (op {}), registered before and still held, is missing", at, it.name, it.op)
            }
        }
    }
    for (u, c) in cols.iter().enumerate() {
        if calls.iter().any(|c| c.who == u && c.what == 0 && calls.iter().any(|d| d.who == u && d.seq > c.seq)) {
            fail!("collector-called-after-end", "the collector of op {} was called after it had ended", c.2)
        }
    }
}

fn describe(o: &Op, _setup: bool) -> String {
    match o.k {
        REG => format!("register {} m{} with {}", KN[o.a[0] as usize], o.id, GN[o.a[1] as usize]),
        COL => format!(
            "register a collector with {} which panics {} in calls {:?}{}{}",
            GN[o.a[0] as usize],
            MODE[o.a[2] as usize],
            (0..4).filter(|i| o.a[1] >> i & 1 == 1).map(|i| i + 1).collect::<Vec<_>>(),
            if o.a[3] % 8 > 0 { format!(", ends at call {}", o.a[3] % 8) } else { "".into() },
            if o.a[3] >= 8 { ", registers a counter with A before a panic" } else { "" }
        ),
        GATHER => format!("gather {}", GN[o.a[0] as usize]),
        DROP => format!("drop the handle of op {}", o.a[0]),
        TIME => format!("time a closure with the shared {}{}", KN[o.a[0] as usize], if o.a[1] != 0 { " which panics" } else { "" }),
        TRACK => format!("track a closure{}{}", if o.a[1] != 0 { " twice" } else { "" }, if o.a[0] != 0 { " which panics" } else { "" }),
        UPDATE => format!("update the shared {}", KN[o.a[0] as usize]),
        _ => "read all shared metrics".into(),
    }
}
fn cfg(_r: &mut Rng, _p: &Plan, _c: &mut Config) {}

pub const PROP: Prop = Prop {
    id: "C19",
    gen,
    cfg,
    exec,
    describe,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 2-4 threads register, gather, update, time and track while user collectors (in collect, in their iterator, when dropped) and closures panic at generated moments; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std (channel, Mutex poisoning, unwinding), compiled from source and instrumented",
    directed: &[],
    stub: "thread scheduler, futex, clocks, heap; user collectors and closures are generated",
};

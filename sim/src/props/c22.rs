//! C22: callbacks may use the library; every call finishes.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, Config};
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Registry};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

const DO: u16 = 0; // action
const TIME: u16 = 1; // metric, actions
const TRACK: u16 = 2; // metric, actions
const COLL: u16 = 3; // gatherer, actions
const GATHER: u16 = 4; // gatherer

// actions: code + 16 * target
const NAMES: [&str; 16] = [
    "nothing", "update", "render", "relabel", "read", "time", "track", "create+register in", "register collector in", "gather", "default_registry()", "timestamp", "clear labels of", "drop created", "iterate and modify", "register successive collectors in",
];
const KN: [&str; 4] = ["counter", "gauge", "histogram", "summary"];

fn action(r: &mut Rng, nm: i64, own: Option<i64>, heavy: bool) -> i64 {
    let c = r.weighted(&[1, 5, 4, 4, 4, 3, 3, if heavy { 3 } else { 1 }, if heavy { 2 } else { 1 }, if heavy { 4 } else { 2 }, 2, 1, 1, 1, 2, 1]) as i64;
    let t = match c {
        7..=9 | 15 => r.int(0, 2),
        10 | 13 => 0,
        _ => own.filter(|_| r.chance(2, 3)).unwrap_or_else(|| r.int(0, nm - 1)),
    };
    c + 16 * t
}
fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C22");
    let nm = r.int(1, 4);
    let k0 = r.int(0, 3);
    // all of one kind, so that they are compared and merged; perhaps in another order by gatherer B
    let same = r.chance(1, 2);
    p.set("reversed", r.chance(1, 2) as i64);
    for i in 0..nm {
        // kind, gatherers it is registered with
        p.obj(0, &[if same { k0 } else { (k0 + i) % 4 }, if same { r.pick(&[6, 6, 7, 5, 3]) } else { r.int(0, 7) }]);
    }
    // collectors present from the start
    let heavy = r.chance(1, 3);
    for _ in 0..r.int(0, 3) {
        let a = [r.int(0, 2), action(r, nm, None, heavy), action(r, nm, None, heavy), action(r, nm, None, heavy)];
        p.obj(1, &a);
    }
    let nt = r.int(1, 4) as usize;
    for t in 0..nt {
        for _ in 0..r.int(1, 5) {
            let m = r.int(0, nm - 1);
            let mut a = |m: Option<i64>| action(r, nm, m, heavy);
            let x = [a(Some(m)), a(Some(m)), a(Some(m))];
            match r.weighted(&[4, 6, 3, 2, 6]) as u16 {
                DO => p.push(t, DO, &[x[0]]),
                TIME => p.push(t, TIME, &[m, x[0], x[1], x[2]]),
                TRACK => p.push(t, TRACK, &[m, x[0], x[1], x[2]]),
                COLL => {
                    let g = r.int(0, 2);
                    p.push(t, COLL, &[g, x[0], x[1], x[2]])
                }
                _ => p.push(t, GATHER, &[r.int(0, 2)]),
            }
        }
    }
    p
}

#[derive(Clone)]
enum M {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
struct W {
    ms: Vec<(M, AtomicU64)>,
    gs: Vec<Option<Gat>>,
    regs: Vec<Registry>,
    made: Mutex<Vec<Counter>>,
    n: AtomicU64,
    calls: AtomicU64,
    /// allow default_registry() in collectors (the known finding)
    forbidden: bool,
}
macro_rules! each {
    ($m:expr, $c:ident => $e:expr) => {
        match $m {
            M::C($c) => $e,
            M::G($c) => $e,
            M::H($c) => $e,
            M::S($c) => $e,
        }
    };
}
/// What gatherers the running callback must not touch: those up to `level` may be locked by this thread.
/// (Locking them in another order would be the user's own deadlock.)
fn act(w: &'static W, a: i64, level: i64) {
    let t = (a / 16) as usize;
    match a % 16 {
        1 => {
            let m = &w.ms[t];
            m.1.fetch_add(1, SeqCst);
            sut(|| match &m.0 {
                M::C(c) => c.increment(),
                M::G(c) => c.add(1.5),
                M::H(c) => c.observe(1.0),
                M::S(c) => c.observe(1.0),
            })
        }
        2 => {
            if w.n.fetch_add(1, SeqCst) % 4 == 0 {
                // whatever it prints, it must not wait for a lock that is held around a callback
                sut(|| each!(&w.ms[t].0, c => format!("{:?}", c).len()));
            }
            let s = sut(|| each!(&w.ms[t].0, c => c.to_string()));
            if !s.starts_with('m') {
                fail!("text-malformed", "a metric renders as {:?}", s)
            }
        }
        3 | 12 => {
            let n = w.n.fetch_add(1, SeqCst) % 3;
            let mut m = sut(|| w.ms[t].0.clone());
            sut(|| {
                each!(&mut m, c => {
                    let mut l = c.labels_mut();
                    if a % 16 == 12 {
                        l.clear()
                    } else {
                        l.insert("l", ["x", "y", "z"][n as usize]).unwrap()
                    }
                })
            });
            sut(|| drop(m));
        }
        4 => {
            each!(&w.ms[t].0, c => { labels_of(c.labels()); });
            sut(|| match &w.ms[t].0 {
                M::C(c) => {
                    c.value();
                }
                M::G(c) => {
                    c.value();
                }
                M::H(c) => {
                    c.cumulative_buckets().count();
                }
                M::S(c) => {
                    c.quantiles();
                }
            })
        }
        5 => timed(w, t, &[16 * t as i64 + 1], level),
        6 => tracked(w, t, &[16 * t as i64 + 4], level),
        7 => {
            let c = sut(|| CounterBuilder::new("created").label("n", "v").registry(w.regs[t].clone()).finish().unwrap());
            w.made.lock().unwrap().push(c);
        }
        8 => register(w, t, [16, 2, 0], true),
        9 => {
            if t as i64 > level {
                do_gather(w, t)
            }
        }
        10 => {
            if level < 0 || w.forbidden {
                let c = sut(|| {
                    default_registry().register(Ends(0));
                    CounterBuilder::new("created").default_registry().finish().unwrap()
                });
                w.made.lock().unwrap().push(c);
            }
        }
        11 => sut(|| each!(&w.ms[t].0, c => c.timestamp_mut().set(5))),
        13 => {
            let c = w.made.lock().unwrap().pop();
            sut(|| drop(c))
        }
        14 => {
            // while iterators over labels and buckets are held
            let mut m = sut(|| w.ms[t].0.clone());
            let n = w.n.fetch_add(1, SeqCst) % 3;
            sut(|| {
                each!(&w.ms[t].0, c => {
                    let mut i = c.labels().iter();
                    i.next();
                    each!(&mut m, c => c.labels_mut().insert("l", ["x", "y", "z"][n as usize]).unwrap());
                    while i.next().is_some() {
                        c.labels().len();
                    }
                })
            });
            if let M::H(c) = &w.ms[t].0 {
                let mut i = sut(|| c.cumulative_buckets());
                sut(|| i.next());
                act(w, 16 * t as i64 + 1, level);
                sut(|| i.count());
            }
            sut(|| drop(m));
        }
        15 => sut(|| w.regs[t].register(Rot { w, g: t })),
        _ => rt::yield_now(),
    }
}
/// Every gather ends one collector and begets the next one.
struct Rot {
    w: &'static W,
    g: usize,
}
impl Collect for Rot {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        rt::user(|| sut(|| self.w.regs[self.g].register(Rot { w: self.w, g: self.g })));
        None
    }
}
fn acts(w: &'static W, a: &[i64], level: i64) {
    w.calls.fetch_add(1, SeqCst);
    for x in a {
        act(w, *x, level)
    }
}
fn timed(w: &'static W, t: usize, a: &[i64], level: i64) {
    let m = &w.ms[t];
    let n = AtomicU64::new(0);
    sut(|| {
        each!(&m.0, c => c.time(|| rt::user(|| {
            n.fetch_add(1, SeqCst);
            acts(w, a, level)
        })))
    });
    m.1.fetch_add(1, SeqCst);
    if n.load(SeqCst) != 1 {
        fail!("closure-calls", "a timed closure was called {} times", n.load(SeqCst))
    }
}
fn tracked(w: &'static W, t: usize, a: &[i64], level: i64) {
    let n = AtomicU64::new(0);
    match &w.ms[t].0 {
        M::G(c) => sut(|| {
            c.track_inprogress(|| {
                rt::user(|| {
                    n.fetch_add(1, SeqCst);
                    acts(w, a, level)
                })
            })
        }),
        _ => return timed(w, t, a, level),
    }
    if n.load(SeqCst) != 1 {
        fail!("closure-calls", "a tracked closure was called {} times", n.load(SeqCst))
    }
}
struct User {
    w: &'static W,
    g: usize,
    acts: [i64; 3],
    calls: u32,
    ends: bool,
}
impl Collect for User {
    type Metrics = Lazy;
    fn collect(&mut self) -> Option<Lazy> {
        self.calls += 1;
        rt::user(|| acts(self.w, &self.acts[..2], self.g as i64));
        if self.ends && self.calls == 2 {
            return None;
        }
        // the metric itself, and a clone of it: merged by the gatherer
        let m = &self.w.ms[0].0;
        let one = || match m.clone() {
            M::C(c) => Metric::Counter(c),
            M::G(c) => Metric::Gauge(c),
            M::H(c) => Metric::Histogram(c),
            M::S(c) => Metric::Summary(c),
        };
        Some(Lazy { w: self.w, act: self.acts[2], g: self.g, left: vec![one(), one()] })
    }
}
impl Drop for User {
    fn drop(&mut self) {
        rt::user(|| act(self.w, 1, self.g as i64));
    }
}
/// The iterator over the collected metrics is the user's code, too.
struct Lazy {
    w: &'static W,
    act: i64,
    g: usize,
    left: Vec<Metric>,
}
impl Iterator for Lazy {
    type Item = Metric;
    fn next(&mut self) -> Option<Metric> {
        rt::user(|| act(self.w, self.act, self.g as i64));
        self.left.pop()
    }
}
struct Ends(u32);
impl Collect for Ends {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.0 += 1;
        if self.0 > 1 {
            return None;
        }
        Some(vec![].into_iter())
    }
}
fn register(w: &'static W, g: usize, acts: [i64; 3], ends: bool) {
    sut(|| w.regs[g].register(User { w, g, acts, calls: 0, ends }))
}
fn do_gather(w: &'static W, g: usize) {
    let f: MetricFamilies = match w.gs[g] {
        Some(g) => gather(g),
        None => sut(|| default_gatherer().lock().unwrap().gather()),
    };
    let t = sut(|| f.to_text());
    if let Err(m) = crate::expo::parse(&t, true) {
        fail!("text-malformed", "{}", m)
    }
    sut(|| drop(f))
}

fn exec(p: &'static Plan) {
    let (a, b) = (gatherer(), gatherer());
    let regs = vec![sut(default_registry), registry(a), registry(b)];
    let reversed = p.p("reversed") != 0;
    let ms: Vec<(M, AtomicU64)> = p
        .objs
        .iter()
        .filter(|o| o.k == 0)
        .map(|o| {
            let m = sut(|| {
                macro_rules! mk {
                    ($b:expr) => {{
                        let mut b = $b;
                        for i in 0..if reversed { 2 } else { 3 } {
                            if o.a[1] >> i & 1 == 1 {
                                b.registry(regs[i].clone());
                            }
                        }
                        b.finish().unwrap()
                    }};
                }
                match o.a[0] {
                    0 => M::C(mk!(CounterBuilder::new("m"))),
                    1 => M::G(mk!(GaugeBuilder::new("m"))),
                    2 => M::H(mk!({
                        let mut b = HistogramBuilder::new("m");
                        b.bucket(0.5).bucket(1.0);
                        b
                    })),
                    _ => M::S(mk!({
                        let mut b = SummaryBuilder::new("m", Duration::from_secs(10));
                        b.quantile(0.5);
                        b
                    })),
                }
            });
            (m, AtomicU64::new(0))
        })
        .collect();
    if reversed {
        let objs: Vec<&Op> = p.objs.iter().filter(|o| o.k == 0).collect();
        for (o, m) in objs.iter().zip(&ms).rev() {
            if o.a[1] & 4 != 0 {
                sut(|| each!(&m.0, c => regs[2].register(c.collector())))
            }
        }
    }
    let w: &'static W = leak(W {
        ms,
        gs: vec![None, Some(a), Some(b)],
        regs,
        made: Mutex::new(vec![]),
        n: AtomicU64::new(0),
        calls: AtomicU64::new(0),
        forbidden: p.p("forbidden") != 0,
    });
    for o in p.objs.iter().filter(|o| o.k == 1) {
        register(w, o.a[0] as usize, [o.a[1], o.a[2], o.a[3]], false)
    }
    run_plan(p, move |_t, o| match o.k {
        DO => act(w, o.a[0], -1),
        TIME => timed(w, o.a[0] as usize, &o.a[1..], -1),
        TRACK => tracked(w, o.a[0] as usize, &o.a[1..], -1),
        COLL => register(w, o.a[0] as usize, [o.a[1], o.a[2], o.a[3]], o.id % 2 == 0),
        _ => do_gather(w, o.a[0] as usize),
    });
    for g in 0..3 {
        do_gather(w, g)
    }
    for (i, (m, n)) in w.ms.iter().enumerate() {
        let n = n.load(SeqCst);
        let c = match m {
            M::H(c) => sut(|| c.count()),
            M::S(c) => sut(|| c.count()),
            _ => continue,
        };
        if c != n {
            fail!("count-wrong", "metric {} has count {}, {} observations were made", i, c, n)
        }
    }
}

fn show(a: i64) -> String {
    format!("{} {}", NAMES[a as usize % 16], a / 16)
}
fn describe(o: &Op, setup: bool) -> String {
    let acts = || o.a[1..].iter().map(|a| show(*a)).collect::<Vec<_>>().join(", ");
    let g = ["default", "A", "B"];
    match (setup, o.k) {
        (true, 0) => format!("{} registered with {}", KN[o.a[0] as usize], (0..3).filter(|i| o.a[1] >> i & 1 == 1).map(|i| g[i]).collect::<Vec<_>>().join("+")),
        (true, _) | (_, COLL) => format!("collector in {} which does: {}", g[o.a[0] as usize], acts()),
        (_, DO) => show(o.a[0]),
        (_, TIME) => format!("time metric {}, inside: {}", o.a[0], acts()),
        (_, TRACK) => format!("track metric {}, inside: {}", o.a[0], acts()),
        _ => format!("gather {}", g[o.a[0] as usize]),
    }
}
fn cfg(r: &mut Rng, _p: &Plan, c: &mut Config) {
    if r.chance(1, 4) {
        time_cfg(r, c, &[1, 1_000_000, 11_000_000_000], &[-1_000_000_000, 1_000_000_000]);
    }
}
/// A collector of the default gatherer which calls default_registry().
fn finding() -> Plan {
    let mut p = Plan::new("C22");
    p.set("forbidden", 1);
    p.obj(0, &[0, 0]);
    p.obj(1, &[0, 10, 0, 0]);
    p.push(0, GATHER, &[0]);
    p
}

pub const PROP: Prop = Prop {
    id: "C22",
    gen,
    cfg,
    exec,
    describe,
    quick: 80000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 1-4 threads mix all operations with callbacks (timed and tracked closures, collectors) which update, render, relabel, create, register and gather in turn; a run that does not end is a violation (deadlock: nobody can run; no progress: step bound exceeded under a fair schedule); non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, atomic_immut, its other dependencies and std, compiled from source and instrumented",
    directed: &[("default-registry-in-collector", finding)],
    stub: "thread scheduler, futex, clocks, heap",
};

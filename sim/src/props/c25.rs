//! C25: memory is returned.
use crate::common::*;
use crate::driver::Prop;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, sut_catch, user, Config};
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{Collect, Gatherer, Registry};
use std::sync::Mutex;
use std::time::Duration;

const NEW: u16 = 0; // kind, gatherers (bit mask; 4: a registry from the pool), invalid?
const CLONE: u16 = 1; // object
const USE: u16 = 2; // object, how, value
const LABEL: u16 = 3; // object, how, value
const SNAP: u16 = 4; // gatherer, keep / text
const DROP: u16 = 5; // object
const REG: u16 = 6; // gatherer
const REPLACE: u16 = 7; // gatherer
const COLL: u16 = 8; // gatherer, ends or panics at call, panics?
const COLLECTOR: u16 = 9; // object: collector() made, called and dropped or registered
const ADV: u16 = 10; // ns
const NOPS: u16 = 11;

const WINDOW: i64 = 1_000_000_000;
const TAG: &str = "planned";

enum Obj {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
    Snap(MetricFamilies),
    Text(String),
    Reg(Registry),
    Labels(Vec<prometrics::label::Label>),
    Map(prometrics::label::Labels),
}

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C25");
    for _ in 0..r.int(1, 3) {
        p.obj(0, &[r.int(0, 3), r.int(0, 3)]);
    }
    let w: [u32; NOPS as usize] = r.pick(&[
        [4, 3, 6, 4, 4, 5, 1, 1, 2, 2, 1],
        [2, 2, 2, 10, 5, 2, 0, 0, 0, 0, 0],
        [6, 2, 1, 1, 4, 6, 2, 2, 3, 2, 0],
        [3, 1, 8, 1, 3, 2, 0, 0, 1, 1, 3],
    ]);
    let op = |r: &mut Rng| -> (u16, [i64; 4]) {
        let k = r.weighted(&w) as u16;
        let x = r.int(0, 50);
        (
            k,
            match k {
                NEW => [r.int(0, 3), r.int(0, 7), r.chance(1, 8) as i64, 0],
                USE => [x, r.int(0, 9), r.int(0, 5), 0],
                LABEL => [x, r.int(0, 5), r.int(0, 3), r.int(0, 3)],
                SNAP => [r.int(0, 1), r.int(0, 2), 0, 0],
                REG | REPLACE => [r.int(0, 1), 0, 0, 0],
                COLL => [r.int(0, 1), r.int(0, 3), r.int(0, 1), 0],
                ADV => [r.pick(&[1, WINDOW / 2, WINDOW + 1, 3 * WINDOW]), 0, 0, 0],
                _ => [x, r.int(0, 2), 0, 0],
            },
        )
    };
    // a fifth of the runs repeat a cycle instead
    if r.chance(1, 5) {
        p.set("steady", 1);
        p.set("look", r.int(0, 1));
        for _ in 0..r.int(1, 4) {
            let (k, mut a) = op(r);
            if k == COLL {
                // a gather ends with the first panic, so that one per cycle would pile up
                a[2] = 0;
                a[1] = r.int(1, 3);
            }
            p.push(0, k, &a);
        }
    } else {
        for t in 0..r.int(2, 4) as usize {
            for _ in 0..r.int(2, 9) {
                let (k, a) = op(r);
                p.push(t, k, &a);
            }
        }
    }
    p
}

struct Col {
    metrics: Vec<Counter>,
    calls: i64,
    at: i64,
    panics: bool,
}
impl Collect for Col {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.calls += 1;
        if self.at > 0 && self.calls >= self.at {
            if self.panics && self.calls == self.at {
                user(|| rt::stat(rt::ST_PANIC, 1));
                std::panic::panic_any(TAG);
            }
            return None;
        }
        Some(self.metrics.iter().cloned().map(Metric::from).collect::<Vec<_>>().into_iter())
    }
}
/// a library call in which the plan's panic may occur
fn may_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    match sut_catch(f) {
        Ok(v) => Some(v),
        Err(e) if e.downcast_ref::<&str>() == Some(&TAG) => {
            sut(move || drop(e));
            None
        }
        Err(_) => fail!("unexpected-panic", "op {} on thread {} panicked: {}", rt::cur_op(), rt::tid(), rt::last_panic()),
    }
}

#[derive(Default)]
struct World {
    pool: Mutex<Vec<Obj>>,
}
impl World {
    fn take(&self, i: i64, f: impl Fn(&Obj) -> bool) -> Option<Obj> {
        let mut p = self.pool.lock().unwrap();
        let c: Vec<usize> = (0..p.len()).filter(|&i| f(&p[i])).collect();
        if c.is_empty() {
            return None;
        }
        let k = c[i as usize % c.len()];
        Some(p.remove(k))
    }
    fn put(&self, o: Obj) {
        self.pool.lock().unwrap().push(o)
    }
}
fn metric(o: &Obj) -> bool {
    match o {
        Obj::C(_) | Obj::G(_) | Obj::H(_) | Obj::S(_) => true,
        _ => false,
    }
}
fn dup(o: &Obj) -> Option<Obj> {
    Some(match o {
        Obj::C(x) => Obj::C(x.clone()),
        Obj::G(x) => Obj::G(x.clone()),
        Obj::H(x) => Obj::H(x.clone()),
        Obj::S(x) => Obj::S(x.clone()),
        Obj::Reg(x) => Obj::Reg(x.clone()),
        Obj::Labels(x) => Obj::Labels(x.clone()),
        Obj::Map(x) => Obj::Map(x.clone()),
        _ => return None,
    })
}
fn lock(gs: Gs, g: usize) -> std::sync::MutexGuard<'static, Option<Gatherer>> {
    gs[g].lock().unwrap_or_else(|e| e.into_inner())
}
type Gs = &'static [Mutex<Option<Gatherer>>; 2];

fn build(kind: i64, regs: &[Registry], invalid: bool) -> Option<Obj> {
    let names = ["ma", "mb", "mc", "md"];
    macro_rules! go {
        ($b:expr, $v:path) => {{
            let mut b = $b;
            b.namespace("ns").help("some help").label("k", "v");
            if invalid {
                b.label("__x", "y");
            }
            for r in regs {
                b.registry(r.clone());
            }
            b.finish().ok().map($v)
        }};
    }
    match kind {
        0 => go!(CounterBuilder::new(names[0]), Obj::C),
        1 => go!(GaugeBuilder::new(names[1]), Obj::G),
        2 => {
            let mut h = HistogramBuilder::new(names[2]);
            h.bucket(1.0).bucket(2.0).bucket(4.0);
            go!(h, Obj::H)
        }
        _ => {
            let mut s = SummaryBuilder::new(names[3], Duration::from_nanos(WINDOW as u64));
            s.quantile(0.5).quantile(0.9);
            go!(s, Obj::S)
        }
    }
}
fn use_(o: &Obj, how: i64, v: f64) -> Option<Obj> {
    match (o, how) {
        (Obj::C(c), 0..=2) => drop(c.add(v)),
        (Obj::C(c), 3) => c.time(|| ()),
        (Obj::C(c), 4) => drop(may_panic(|| c.time(|| std::panic::panic_any(TAG)))),
        (Obj::G(g), 0) => g.set(v),
        (Obj::G(g), 1) => g.add(v),
        (Obj::G(g), 2) => g.set_to_current_time(),
        (Obj::G(g), 3) => {
            g.track_inprogress(|| ());
            g.time(|| ())
        }
        (Obj::G(g), 4) if v as i64 % 2 == 0 => drop(may_panic(|| g.time(|| std::panic::panic_any(TAG)))),
        (Obj::G(g), 4) => drop(may_panic(|| g.track_inprogress(|| std::panic::panic_any(TAG)))),
        (Obj::H(h), 0..=2) => h.observe(v),
        (Obj::H(h), 3) => h.time(|| ()),
        (Obj::H(h), 4) => drop(may_panic(|| h.time(|| std::panic::panic_any(TAG)))),
        (Obj::S(s), 3) => s.time(|| ()),
        (Obj::S(s), 0..=2) => {
            for _ in 0..8 {
                s.observe(v)
            }
        }
        (Obj::S(s), 4) => drop(may_panic(|| s.time(|| std::panic::panic_any(TAG)))),
        (Obj::C(x), 5) => return Some(Obj::Text(x.to_string())),
        (Obj::G(x), 5) => return Some(Obj::Text(x.to_string())),
        (Obj::H(x), 5) => return Some(Obj::Text(x.to_string())),
        (Obj::S(x), 5) => return Some(Obj::Text(x.to_string())),
        (Obj::H(x), 6) => drop(x.cumulative_buckets().map(|b| b.cumulative_count()).collect::<Vec<_>>()),
        (Obj::S(x), 6) => drop(x.quantiles()),
        (Obj::C(x), 7) => x.timestamp_mut().set_now(),
        (Obj::G(x), 7) => x.timestamp_mut().set_now(),
        (Obj::H(x), 7) => x.timestamp_mut().set_now(),
        (Obj::S(x), 7) => x.timestamp_mut().set_now(),
        (Obj::C(x), 8) => return Some(Obj::Labels(x.labels().iter().cloned().collect())),
        (Obj::G(x), 8) => return Some(Obj::Labels(x.labels().iter().cloned().collect())),
        (Obj::H(x), 8) => return Some(Obj::Labels(x.labels().iter().cloned().collect())),
        (Obj::S(x), 8) => return Some(Obj::Labels(x.labels().iter().cloned().collect())),
        (Obj::C(x), 9) => return Some(Obj::Map(x.labels().clone())),
        (Obj::G(x), 9) => return Some(Obj::Map(x.labels().clone())),
        (Obj::H(x), 9) => return Some(Obj::Map(x.labels().clone())),
        (Obj::S(x), 9) => return Some(Obj::Map(x.labels().clone())),
        _ => {}
    }
    None
}
fn label(o: &mut Obj, how: i64, n: i64, v: i64) {
    let mut m = match o {
        Obj::C(x) => x.labels_mut(),
        Obj::G(x) => x.labels_mut(),
        Obj::H(x) => x.labels_mut(),
        Obj::S(x) => x.labels_mut(),
        _ => return,
    };
    let n = ["k", "l", "m", "__bad"][n as usize];
    match how {
        0 => m.remove(n),
        1 => m.clear(),
        _ => drop(m.insert(n, ["", "x", "some longer value of this label", "\u{e9}"][v as usize])),
    }
}
fn collector(o: &Obj, how: i64, reg: Option<Registry>) {
    macro_rules! go {
        ($x:expr) => {{
            let mut c = $x.collector();
            if how > 0 {
                drop(c.collect().map(|m| m.count()));
            }
            if let (2, Some(r)) = (how, reg) {
                r.register(c)
            }
        }};
    }
    match o {
        Obj::C(x) => go!(x),
        Obj::G(x) => go!(x),
        Obj::H(x) => go!(x),
        Obj::S(x) => go!(x),
        _ => {}
    }
}

fn run_op(w: &'static World, gs: Gs, o: &Op) {
    let reg_of = |g: usize| lock(gs, g).as_ref().unwrap().registry();
    match o.k {
        NEW => {
            let mut regs: Vec<Registry> = sut(|| (0..2).filter(|g| o.a[1] >> g & 1 == 1).map(reg_of).collect());
            if o.a[1] & 4 != 0 {
                if let Some(Obj::Reg(r)) = w.take(0, |o| matches!(o, Obj::Reg(_))) {
                    regs.push(r)
                }
            }
            let m = sut(|| build(o.a[0], &regs, o.a[2] != 0));
            sut(move || drop(regs));
            if let Some(m) = m {
                w.put(m)
            }
        }
        CLONE => {
            if let Some(x) = w.take(o.a[0], |_| true) {
                let d = sut(|| dup(&x));
                w.put(x);
                if let Some(d) = d {
                    w.put(d)
                }
            }
        }
        USE => {
            if let Some(x) = w.take(o.a[0], metric) {
                let y = sut(|| use_(&x, o.a[1], o.a[2] as f64));
                w.put(x);
                if let Some(y) = y {
                    w.put(y)
                }
            }
        }
        LABEL => {
            if let Some(mut x) = w.take(o.a[0], metric) {
                sut(|| label(&mut x, o.a[1], o.a[2], o.a[3]));
                w.put(x);
            }
        }
        SNAP => {
            // a gatherer whose lock was poisoned by a panicking collector goes on working
            let f = may_panic(|| {
                let mut g = lock(gs, o.a[0] as usize);
                g.as_mut().unwrap().gather()
            });
            if let Some(f) = f {
                match o.a[1] {
                    0 => sut(|| drop(f)),
                    1 => w.put(Obj::Snap(f)),
                    _ => {
                        let t = sut(|| f.to_text());
                        sut(|| drop(f));
                        w.put(Obj::Text(t))
                    }
                }
            }
        }
        DROP => {
            if let Some(x) = w.take(o.a[0], |_| true) {
                sut(|| drop(x))
            }
        }
        REG => {
            let r = sut(|| reg_of(o.a[0] as usize));
            w.put(Obj::Reg(r))
        }
        REPLACE => sut(|| {
            let old = lock(gs, o.a[0] as usize).replace(Gatherer::new());
            drop(old)
        }),
        COLL => sut(|| {
            let metrics = vec![Counter::new("u1").unwrap(), Counter::new("u2").unwrap()];
            reg_of(o.a[0] as usize).register(Col { metrics, calls: 0, at: o.a[1], panics: o.a[2] != 0 })
        }),
        COLLECTOR => {
            if let Some(x) = w.take(o.a[0], metric) {
                sut(|| collector(&x, o.a[1], Some(reg_of(0))));
                w.put(x)
            }
        }
        ADV => rt::advance(o.a[0]),
        _ => rt::herr("op"),
    }
}
/// drops everything but the first `keep` objects
fn drop_all(w: &World, keep: usize) {
    loop {
        let x = {
            let mut p = w.pool.lock().unwrap();
            if p.len() <= keep {
                break;
            }
            p.pop().unwrap()
        };
        sut(|| drop(x))
    }
}

fn exec(p: &'static Plan) {
    let w: &'static World = leak(World::default());
    rt::set_faults(false);
    // one-time allocations of std and of lazily initialised parts of the library
    sut(|| drop(prometrics::default_registry()));
    if may_panic(|| -> () { std::panic::panic_any(TAG) }).is_some() {
        rt::herr("no panic")
    }
    let base = (rt::live_blocks(), rt::live_bytes());
    let gs: Gs = leak([Mutex::new(None), Mutex::new(None)]);
    let fresh = || {
        for g in gs.iter() {
            let x = sut(Gatherer::new);
            *g.lock().unwrap() = Some(x);
        }
    };
    fresh();
    for o in &p.objs {
        let regs: Vec<Registry> = sut(|| (0..2).filter(|g| o.a[1] >> g & 1 == 1).map(|g| lock(gs, g as usize).as_ref().unwrap().registry()).collect());
        let m = sut(|| build(o.a[0], &regs, false)).unwrap();
        sut(move || drop(regs));
        w.put(m);
    }
    rt::set_faults(true);
    if p.p("steady") == 0 {
        run_plan(p, move |_t, o| run_op(w, gs, o));
    } else {
        run_plan(p, move |_t, _o| {});
        rt::set_faults(false);
        let n = p.objs.len();
        let mut max = [(0, 0); 3];
        for phase in 0..3 {
            for _ in 0..p.p("rounds").max(40) {
                for o in &p.threads[0] {
                    // the metrics of the setup stay first, in their order
                    run_op(w, gs, o);
                    let mut pool = w.pool.lock().unwrap();
                    pool.sort_by_key(|o| !metric(o));
                }
                drop_all(w, n);
                // time passes, so that everything outdated can go, and in half of the runs everybody is looked at
                rt::advance(WINDOW + 1);
                let pool = std::mem::take(&mut *w.pool.lock().unwrap());
                for x in pool.iter().filter(|_| p.p("look") != 0) {
                    sut(|| drop(use_(x, 6, 0.0)));
                }
                *w.pool.lock().unwrap() = pool;
                for g in 0..2 {
                    run_op(w, gs, &Op { id: 0, k: SNAP, a: [g, 0, 0, 0] });
                }
                let m: &mut (u64, u64) = &mut max[phase];
                m.0 = m.0.max(rt::live_blocks());
                m.1 = m.1.max(rt::live_bytes());
            }
        }
        // collectors which never end stay registered
        let kept = p.threads[0].iter().filter(|o| o.k == COLL && o.a[1] == 0 || o.k == COLLECTOR && o.a[1] == 2).count() as u64;
        if kept == 0 && (max[2].0 > max[1].0 || max[2].1 > max[1].1 + 64) {
            fail!(
                "memory-grows",
                "{} repetitions of the same operations raised the memory in use from {} blocks ({} bytes) to {} blocks ({} bytes) at most",
                p.p("rounds").max(40),
                max[1].0,
                max[1].1,
                max[2].0,
                max[2].1
            )
        }
    }
    drop_all(w, 0);
    for g in gs.iter() {
        let x = g.lock().unwrap_or_else(|e| e.into_inner()).take();
        sut(|| drop(x));
    }
    let end = (rt::live_blocks(), rt::live_bytes());
    if end != base {
        fail!(
            "memory-leaked",
            "everything was dropped, but {} blocks ({} bytes) more than at the start are still allocated",
            end.0 as i64 - base.0 as i64,
            end.1 as i64 - base.1 as i64
        )
    }
}

fn describe(o: &Op, setup: bool) -> String {
    let kind = |k: i64| ["counter", "gauge", "histogram", "summary"][k as usize];
    if setup {
        return format!("{} registered with gatherers {:#b}", kind(o.a[0]), o.a[1]);
    }
    match o.k {
        NEW => format!("new {} registered with {:#b}{}", kind(o.a[0]), o.a[1], if o.a[2] != 0 { ", invalid" } else { "" }),
        CLONE => format!("clone object {}", o.a[0]),
        USE => format!("use metric {}: {}", o.a[0], ["update", "update", "update", "update", "panicking closure", "to_string", "read", "timestamp", "copy labels", "clone label map"][o.a[1] as usize]),
        LABEL => format!("relabel metric {}: {} {} {}", o.a[0], ["remove", "clear", "insert", "insert", "insert", "insert"][o.a[1] as usize], o.a[2], o.a[3]),
        SNAP => format!("gather {}, {}", o.a[0], ["drop it", "keep it", "to text"][o.a[1] as usize]),
        DROP => format!("drop object {}", o.a[0]),
        REG => format!("keep a registry of gatherer {}", o.a[0]),
        REPLACE => format!("replace gatherer {}", o.a[0]),
        COLL => format!("register a collector with gatherer {} {}", o.a[0], if o.a[1] == 0 { "for ever".into() } else { format!("that {} at call {}", if o.a[2] != 0 { "panics" } else { "ends" }, o.a[1]) }),
        COLLECTOR => format!("make a collector of metric {} ({})", o.a[0], ["drop it", "call it", "call and register it"][o.a[1] as usize]),
        _ => format!("{} ns pass", o.a[0]),
    }
}
fn cfg(_r: &mut Rng, p: &Plan, c: &mut Config) {
    c.p_spur = 0;
    if p.p("steady") != 0 {
        c.cap2 += 8_000_000 / 40 * p.p("rounds").max(40) as u32;
    }
}

/// One cycle very often.
fn cycle(seed: u64) -> Plan {
    let mut r = Rng(seed);
    loop {
        let mut p = gen(&mut r, 0);
        if p.p("steady") != 0 {
            p.set("rounds", 500);
            return p;
        }
    }
}
fn cycle1() -> Plan {
    cycle(1)
}
fn cycle2() -> Plan {
    cycle(2)
}
fn cycle3() -> Plan {
    cycle(3)
}
fn cycle4() -> Plan {
    cycle(4)
}

pub const PROP: Prop = Prop {
    id: "C25",
    gen,
    cfg,
    exec,
    describe,
    quick: 60000,
    thorough: 1_500_000,
    rule: "a case is one simulated run: 2-4 threads create, clone, use, relabel, gather, replace gatherers, panic and drop, then everything is dropped and the simulated heap must be as before; or one cycle of operations is repeated 120 times; non-trivial: a preemption inside a call or a panic occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, its dependencies and std, compiled from source and instrumented",
    directed: &[("cycle-1", cycle1), ("cycle-2", cycle2), ("cycle-3", cycle3), ("cycle-4", cycle4)],
    stub: "thread scheduler, futex, clocks, heap; user collectors are generated",
};

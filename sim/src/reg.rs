//! Registration scenarios shared by C10 and C11: registering, gathering, dropping, ending collectors.
use crate::common::*;
use crate::fail;
use crate::plan::*;
use crate::rt::{self, sut, user};
use prometrics::metric::{Metric, MetricFamilies};
use prometrics::metrics::*;
use prometrics::{default_gatherer, default_registry, Collect, Gatherer, Registry};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::time::Duration;

pub const REG: u16 = 0; // kind (4: user collector), gatherer mask, path, end at k-th call / number of metrics * 16
pub const GATHER: u16 = 1; // gatherer, keep, further gathers before it
pub const RELEASE: u16 = 2;
pub const DROP: u16 = 3; // op which registered
pub const FAIL: u16 = 4; // variant, gatherer
pub const DEADREG: u16 = 5;
pub const BURST: u16 = 6; // n, gatherer
pub const REGIN: u16 = 7; // call number in which it registers, gatherer, target gatherer
pub const CLONEDROP: u16 = 8;

enum H {
    C(Counter),
    G(Gauge),
    H(Histogram),
    S(Summary),
}
#[derive(Clone, Debug)]
struct Item {
    name: String,
    gath: usize,
    reg: (u64, u64),
    drop: (u64, u64),
    user: Option<usize>,
    op: i32,
}
#[derive(Clone, Debug)]
struct Call {
    who: usize,
    tid: usize,
    seq: u64,
    some: bool,
}
#[derive(Clone, Debug)]
struct Gth {
    g: usize,
    tid: usize,
    op: i32,
    inv: u64,
    ret: u64,
    released: u64,
    names: Vec<(String, f64, usize)>, // series name, value or count, number of series in the family
    families: Vec<String>,
}
#[derive(Default)]
struct World {
    items: Mutex<Vec<Item>>,
    calls: Mutex<Vec<Call>>,
    gathers: Mutex<Vec<Gth>>,
    handles: Mutex<Vec<(i32, H)>>,
    kept: Mutex<Vec<(usize, usize, MetricFamilies)>>, // tid, gather index
    failed: Mutex<Vec<String>>,
    /// user collectors: registration (inv, ret), gatherer
    users: Mutex<Vec<((u64, u64), usize, i32)>>,
}

struct UserCollector {
    w: &'static World,
    id: usize,
    calls: i64,
    end_at: i64,
    metrics: Vec<Counter>,
    reg_at: i64,
    reg: Option<(Registry, usize, i32)>,
}
impl Collect for UserCollector {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.calls += 1;
        let some = self.end_at == 0 || self.calls < self.end_at;
        user(|| {
            let mut c = self.w.calls.lock().unwrap();
            c.push(Call { who: self.id, tid: rt::tid(), seq: rt::seq(), some });
        });
        if !some {
            return None;
        }
        if self.calls == self.reg_at {
            if let Some((reg, gath, op)) = self.reg.take() {
                let name = format!("r{}", op);
                let i = user(|| {
                    let mut v = self.w.items.lock().unwrap();
                    v.push(Item { name: name.clone(), gath, reg: (rt::seq(), u64::MAX), drop: (u64::MAX, u64::MAX), user: None, op });
                    v.len() - 1
                });
                let c = CounterBuilder::new(&name).registry(reg).finish().unwrap();
                c.increment();
                user(|| {
                    self.w.items.lock().unwrap()[i].reg.1 = rt::seq();
                    self.w.handles.lock().unwrap().push((-op, H::C(c)));
                });
            }
        }
        Some(self.metrics.iter().cloned().map(Metric::from).collect::<Vec<_>>().into_iter())
    }
}

pub fn exec(p: &'static Plan, checks: &'static str) {
    let w: &'static World = leak(World::default());
    let gs: &'static Vec<Mutex<Gatherer>> = leak((0..2).map(|_| Mutex::new(sut(Gatherer::new))).collect());
    let regs: &'static Vec<Vec<Registry>> = leak(
        (0..p.threads.len() + 1)
            .map(|_| {
                let mut v: Vec<Registry> = gs.iter().map(|g| sut(|| g.lock().unwrap().registry())).collect();
                v.push(sut(default_registry));
                v
            })
            .collect(),
    );
    let with = |g: usize, f: &mut dyn FnMut(&mut Gatherer)| match g {
        2 => f(&mut default_gatherer().lock().unwrap()),
        g => f(&mut gs[g].lock().unwrap()),
    };
    let registry_of = move |g: usize, path: i64| -> Registry {
        if path == 3 {
            return regs[rt::tid().min(p.threads.len())][g].clone();
        }
        if g == 2 {
            return default_registry();
        }
        gs[g].lock().unwrap().registry()
    };
    let dead: &'static Registry = leak(sut(|| Gatherer::new().registry()));
    let do_gather = move |g: usize, keep: bool, op: i32| {
        let gi = {
            let mut v = w.gathers.lock().unwrap();
            v.push(Gth { g, tid: rt::tid(), op, inv: rt::seq(), ret: u64::MAX, released: u64::MAX, names: vec![], families: vec![] });
            v.len() - 1
        };
        let mut fams = None;
        sut(|| with(g, &mut |x| fams = Some(x.gather())));
        let fams = fams.unwrap();
        let ret = rt::seq();
        let v = views(&fams);
        {
            let mut gv = w.gathers.lock().unwrap();
            gv[gi].ret = ret;
            gv[gi].families = v.iter().map(|f| format!("{} {}", f.name, f.kind)).collect();
            gv[gi].names = v
                .iter()
                .flat_map(|f| {
                    f.series.iter().map(move |s| {
                        let n = match &s.val {
                            Val::Num(v) => *v,
                            Val::Hist { count, .. } | Val::Summ { count, .. } => *count as f64,
                        };
                        (f.name.clone(), n, f.series.len())
                    })
                })
                .collect();
        }
        if keep {
            w.kept.lock().unwrap().push((rt::tid(), gi, fams));
        } else {
            sut(|| drop(fams));
            w.gathers.lock().unwrap()[gi].released = rt::seq();
        }
    };
    let begin_item = move |name: &str, gath: usize, user: Option<usize>, op: i32| -> usize {
        let mut v = w.items.lock().unwrap();
        v.push(Item { name: name.to_string(), gath, reg: (rt::seq(), u64::MAX), drop: (u64::MAX, u64::MAX), user, op });
        v.len() - 1
    };
    run_plan(p, move |_t, o| {
        let op = o.id as i32;
        match o.k {
            REG if o.a[0] < 4 => {
                let name = format!("m{}", op);
                let gl: Vec<usize> = (0..3).filter(|g| o.a[1] >> g & 1 == 1).collect();
                let idx: Vec<usize> = gl.iter().map(|&g| begin_item(&name, g, None, op)).collect();
                let path = o.a[2];
                let handle = sut(|| {
                    macro_rules! build {
                        ($b:expr) => {{
                            let mut b = $b;
                            if path != 2 {
                                for &g in &gl {
                                    if g == 2 && path == 0 {
                                        b.default_registry();
                                    } else {
                                        b.registry(registry_of(g, path));
                                    }
                                }
                            }
                            let m = b.finish().unwrap();
                            if path == 2 {
                                for &g in &gl {
                                    registry_of(g, path).register(m.collector());
                                }
                            }
                            m
                        }};
                    }
                    let mb = || match path {
                        1 => MetricBuilder::new(),
                        _ => MetricBuilder::without_registry(),
                    };
                    // path 1 builds through a MetricBuilder whose registry is replaced
                    let mk = |kind: i64| -> H {
                        if path == 1 {
                            let mut b = mb();
                            b.set_registry(registry_of(gl[0], path));
                            for &g in &gl[1..] {
                                b.registry(registry_of(g, path));
                            }
                            match kind {
                                0 => H::C(b.counter(&name).finish().unwrap()),
                                1 => H::G(b.gauge(&name).finish().unwrap()),
                                2 => H::H(b.histogram(&name).finish().unwrap()),
                                _ => H::S(b.summary(&name, Duration::from_secs(60)).finish().unwrap()),
                            }
                        } else {
                            match kind {
                                0 => H::C(build!(CounterBuilder::new(&name))),
                                1 => H::G(build!(GaugeBuilder::new(&name))),
                                2 => H::H(build!(HistogramBuilder::new(&name))),
                                _ => H::S(build!(SummaryBuilder::new(&name, Duration::from_secs(60)))),
                            }
                        }
                    };
                    mk(o.a[0])
                });
                let ret = rt::seq();
                {
                    let mut v = w.items.lock().unwrap();
                    for i in idx {
                        v[i].reg.1 = ret;
                    }
                }
                // one update, so that a duplicated registration shows in the value
                sut(|| match &handle {
                    H::C(c) => c.increment(),
                    H::G(g) => g.set(1.0),
                    H::H(h) => h.observe(1.0),
                    H::S(s) => s.observe(1.0),
                });
                w.handles.lock().unwrap().push((op, handle));
            }
            REG | REGIN => {
                let (g, nm) = if o.k == REG { ((o.a[1] as u32).trailing_zeros() as usize, o.a[3] / 16) } else { (o.a[1] as usize, 1) };
                let id = {
                    let mut u = w.users.lock().unwrap();
                    u.push(((rt::seq(), u64::MAX), g, op));
                    u.len() - 1
                };
                let metrics: Vec<Counter> = (0..nm)
                    .map(|i| {
                        sut(|| {
                            let c = Counter::new(&format!("u{}_{}", op, i)).unwrap();
                            c.increment();
                            c
                        })
                    })
                    .collect();
                let idx: Vec<usize> = (0..nm).map(|i| begin_item(&format!("u{}_{}", op, i), g, Some(id), op)).collect();
                let c = UserCollector {
                    w,
                    id,
                    calls: 0,
                    end_at: if o.k == REG { o.a[3] % 16 } else { 0 },
                    metrics,
                    reg_at: if o.k == REGIN { o.a[0] } else { 0 },
                    reg: if o.k == REGIN { Some((regs[rt::tid()][o.a[2] as usize].clone(), o.a[2] as usize, op)) } else { None },
                };
                sut(|| registry_of(g, o.a[2].min(3)).register(c));
                let ret = rt::seq();
                w.users.lock().unwrap()[id].0 .1 = ret;
                let mut v = w.items.lock().unwrap();
                for i in idx {
                    v[i].reg.1 = ret;
                }
            }
            GATHER => {
                for _ in 0..o.a[2] {
                    do_gather(o.a[0] as usize, false, op)
                }
                do_gather(o.a[0] as usize, o.a[1] != 0, op)
            }
            RELEASE => {
                let k = {
                    let mut k = w.kept.lock().unwrap();
                    match k.iter().position(|x| x.0 == rt::tid()) {
                        Some(i) => Some(k.remove(i)),
                        None => None,
                    }
                };
                if let Some((_, gi, f)) = k {
                    sut(|| drop(f));
                    w.gathers.lock().unwrap()[gi].released = rt::seq();
                }
            }
            DROP => {
                let hd: Vec<H> = {
                    let mut h = w.handles.lock().unwrap();
                    let (hd, rest) = h.drain(..).partition(|x| x.0 == o.a[0] as i32);
                    *h = rest;
                    let hd: Vec<(i32, H)> = hd;
                    hd.into_iter().map(|x| x.1).collect()
                };
                if !hd.is_empty() {
                    let inv = rt::seq();
                    for i in w.items.lock().unwrap().iter_mut().filter(|i| i.op == o.a[0] as i32) {
                        i.drop.0 = inv;
                    }
                    sut(|| drop(hd));
                    let ret = rt::seq();
                    for i in w.items.lock().unwrap().iter_mut().filter(|i| i.op == o.a[0] as i32) {
                        i.drop.1 = ret;
                    }
                }
            }
            CLONEDROP => {
                // cloning and dropping another handle must not matter
                let hd = w.handles.lock().unwrap().pop();
                if let Some((id, hd)) = hd {
                    let c = sut(|| match &hd {
                        H::C(c) => H::C(c.clone()),
                        H::G(c) => H::G(c.clone()),
                        H::H(c) => H::H(c.clone()),
                        H::S(c) => H::S(c.clone()),
                    });
                    sut(|| drop(c));
                    w.handles.lock().unwrap().push((id, hd));
                }
            }
            FAIL => {
                let name = match o.a[0] {
                    8 => format!("{}f", op),
                    9 => format!("f{}-", op),
                    10 => format!("f{}\u{e9}", op),
                    11 => format!(" f{}", op),
                    12 => String::new(),
                    _ => format!("f{}", op),
                };
                let reg = sut(|| registry_of(o.a[1] as usize, 3));
                w.failed.lock().unwrap().push(name.clone());
                let ok = sut(|| match o.a[0] {
                    0 => CounterBuilder::new(&name).label("__x", "y").registry(reg).finish().is_ok(),
                    1 => GaugeBuilder::new(&name).label("1x", "y").registry(reg).finish().is_ok(),
                    2 => HistogramBuilder::new(&name).bucket(f64::NAN).registry(reg).finish().is_ok(),
                    3 => SummaryBuilder::new(&name, Duration::from_secs(1)).quantile(1.5).registry(reg).finish().is_ok(),
                    4 => SummaryBuilder::new(&name, Duration::from_secs(1)).label("quantile", "y").registry(reg).finish().is_ok(),
                    5 => HistogramBuilder::new(&name).label("le", "y").registry(reg).finish().is_ok(),
                    6 => CounterBuilder::new(&name).namespace("a-b").registry(reg).finish().is_ok(),
                    7 => GaugeBuilder::new(&name).subsystem("").registry(reg).finish().is_ok(),
                    8 => CounterBuilder::new(&name).registry(reg).finish().is_ok(),
                    9 => GaugeBuilder::new(&name).namespace("ok").registry(reg).finish().is_ok(),
                    10 => HistogramBuilder::new(&name).registry(reg).finish().is_ok(),
                    11 => SummaryBuilder::new(&name, Duration::from_secs(1)).registry(reg).finish().is_ok(),
                    12 => CounterBuilder::new(&name).namespace("ok").subsystem("ok").registry(reg).finish().is_ok(),
                    13 => HistogramBuilder::new(&name).label("x-y", "y").registry(reg).finish().is_ok(),
                    14 => SummaryBuilder::new(&name, Duration::from_secs(1)).label("", "y").registry(reg).finish().is_ok(),
                    15 => SummaryBuilder::new(&name, Duration::from_secs(1)).quantile(f64::NAN).registry(reg).finish().is_ok(),
                    16 => SummaryBuilder::new(&name, Duration::from_secs(1)).quantile(0.5).quantile(-0.1).registry(reg).finish().is_ok(),
                    17 => CounterBuilder::new(&name).label("a:b", "y").registry(reg).finish().is_ok(),
                    18 => GaugeBuilder::new(&name).label("_ok", "y").label("a\u{e9}", "y").registry(reg).finish().is_ok(),
                    _ => HistogramBuilder::new(&name).subsystem("0a").bucket(1.0).registry(reg).finish().is_ok(),
                });
                if ok {
                    fail!("invalid-accepted", "op {}: a metric with an invalid setting was built", op)
                }
            }
            DEADREG => {
                let r = sut(|| {
                    let c = CounterBuilder::new("dead").registry(dead.clone()).finish();
                    dead.register(ProcessMetricsCollector::new());
                    c.is_ok()
                });
                if !r {
                    fail!("valid-rejected", "a counter could not be built with the registry of a dropped gatherer")
                }
            }
            BURST => {
                let g = o.a[1] as usize;
                for i in 0..o.a[0] {
                    let name = format!("b{}_{}", op, i);
                    let it = begin_item(&name, g, None, op);
                    let c = sut(|| {
                        let c = CounterBuilder::new(&name).registry(registry_of(g, 3)).finish().unwrap();
                        c.increment();
                        c
                    });
                    w.items.lock().unwrap()[it].reg.1 = rt::seq();
                    w.handles.lock().unwrap().push((op, H::C(c)));
                }
            }
            _ => rt::herr("op"),
        }
    });
    // everything that is still held must be there in the end, everything released must be gone
    rt::set_op(OP_FINAL);
    for k in w.kept.lock().unwrap().drain(..) {
        let (_, gi, f) = k;
        sut(|| drop(f));
        w.gathers.lock().unwrap()[gi].released = rt::seq();
    }
    for g in 0..3 {
        do_gather(g, false, OP_FINAL);
    }
    for g in 0..3 {
        do_gather(g, false, OP_FINAL + 1);
    }
    verify(w, checks);
}

fn verify(w: &World, prop: &str) {
    let items = w.items.lock().unwrap().clone();
    let gathers = w.gathers.lock().unwrap().clone();
    let calls = w.calls.lock().unwrap().clone();
    let users = w.users.lock().unwrap().clone();
    let failed = w.failed.lock().unwrap().clone();
    let c10 = prop == "C10";
    let mut places: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for i in &items {
        places.entry(&i.name).or_default().push(i.gath);
    }
    for g in &gathers {
        let mut shown: BTreeMap<&str, Vec<&(String, f64, usize)>> = BTreeMap::new();
        for n in &g.names {
            shown.entry(&n.0).or_default().push(n);
        }
        let mut fams: BTreeSet<&str> = BTreeSet::new();
        let at = format!("gather of op {} on gatherer {}", g.op, g.g);
        for f in &g.families {
            if !fams.insert(f) {
                fail!("family-twice", "{}: family {} appears twice", at, f)
            }
        }
        let mine = |c: &&Call| c.tid == g.tid && c.seq > g.inv && c.seq < g.ret;
        for it in items.iter() {
            let found: &[&(String, f64, usize)] = shown.get(it.name.as_str()).map_or(&[], |v| v);
            let here = it.gath == g.g || places[it.name.as_str()].contains(&g.g);
            if !here {
                if !found.is_empty() {
                    fail!("metric-foreign", "{}: {} is registered elsewhere", at, it.name)
                }
                continue;
            }
            if it.gath != g.g {
                continue;
            }
            let must = it.reg.1 < g.inv
                && it.drop.0 > g.ret
                && it.user.map_or(true, |u| calls.iter().filter(mine).any(|c| c.who == u && c.some));
            if found.len() > 1 {
                fail!("metric-twice", "{}: {} appears {} times", at, it.name, found.len())
            }
            if let Some(f) = found.first() {
                // the single update follows the registration, so that 0 is possible while that is going on
                if f.1 > 1.0 {
                    fail!("metric-twice", "{}: {} was updated once but shows {}", at, it.name, f.1)
                }
                if it.reg.0 > g.ret {
                    fail!("metric-early", "{}: {} had not been registered yet", at, it.name)
                }
            }
            if must && found.is_empty() {
                let ended = gathers.iter().any(|x| x.ret < g.inv && x.g == g.g);
                fail!(
                    if c10 { "metric-missing" } else { "live-metric-lost" },
                    "{}: {} (op {}), whose registration had completed and which is still held, is missing{}",
                    at,
                    it.name,
                    it.op,
                    if ended { "" } else { " (first gather)" }
                )
            }
            if !c10 && !found.is_empty() && it.drop.1 < g.inv && it.user.is_none() {
                // who could still hold it?
                let held = gathers.iter().any(|x| !std::ptr::eq(x, g) && x.inv < g.ret && (x.ret > g.inv || (x.names.iter().any(|n| n.0 == it.name) && x.released > g.inv)));
                if !held {
                    fail!("dropped-metric-exposed", "{}: {} was dropped before and no snapshot of it is left", at, it.name)
                }
            }
        }
        for n in &g.names {
            if failed.contains(&n.0) {
                fail!("failed-metric-exposed", "{}: {} could not be built but is exposed", at, n.0)
            }
            if !places.contains_key(n.0.as_str()) {
                fail!("metric-invented", "{}: nobody registered {}", at, n.0)
            }
        }
        // user collectors
        for (u, us) in users.iter().enumerate() {
            let n = calls.iter().filter(mine).filter(|c| c.who == u).count();
            if us.1 != g.g {
                if n > 0 {
                    fail!("collector-foreign", "{}: collector of op {} is registered elsewhere but was called", at, us.2)
                }
                continue;
            }
            if n > 1 {
                fail!("collector-called-twice", "{}: collector of op {} was called {} times", at, us.2, n)
            }
            // it may have ended in another gather between the start and the end of this one
            let ended = calls.iter().any(|c| c.who == u && !c.some && c.seq < g.ret);
            if !ended && us.0 .1 < g.inv && n == 0 {
                fail!(if c10 { "metric-missing" } else { "collector-skipped" }, "{}: collector of op {} is live but was not called", at, us.2)
            }
            if calls.iter().any(|c| c.who == u && !c.some && calls.iter().any(|d| d.who == u && d.seq > c.seq)) {
                fail!("collector-called-after-end", "collector of op {} was called after it had ended", us.2)
            }
        }
    }
}

pub fn describe(o: &Op, _setup: bool) -> String {
    let g = |m: i64| -> String { (0..3).filter(|g| m >> g & 1 == 1).map(|g| ["A", "B", "default"][g]).collect::<Vec<_>>().join("+") };
    match o.k {
        REG if o.a[0] < 4 => format!(
            "register {} m{} with {} ({})",
            ["counter", "gauge", "histogram", "summary"][o.a[0] as usize],
            o.id,
            g(o.a[1]),
            ["builder", "MetricBuilder", "register()", "registry clone"][o.a[2] as usize]
        ),
        REG => format!("register collector of {} metrics with {}, {}", o.a[3] / 16, g(o.a[1]), if o.a[3] % 16 == 0 { "never ends".into() } else { format!("ends at call {}", o.a[3] % 16) }),
        GATHER => format!("gather {}{}{}", ["A", "B", "default"][o.a[0] as usize], if o.a[2] > 0 { format!(" {} times", o.a[2] + 1) } else { String::new() }, if o.a[1] != 0 { ", keep the result" } else { "" }),
        RELEASE => "drop the oldest kept result".into(),
        DROP => format!("drop the handle of op {}", o.a[0]),
        FAIL => format!("build an invalid metric ({})", o.a[0]),
        DEADREG => "register with a dropped gatherer".into(),
        BURST => format!("register {} counters with {}", o.a[0], ["A", "B", "default"][o.a[1] as usize]),
        REGIN => format!("register a collector with {} which registers a counter with {} in call {}", ["A", "B", "default"][o.a[1] as usize], ["A", "B", "default"][o.a[2] as usize], o.a[0]),
        _ => "clone and drop a handle".into(),
    }
}

pub fn gen(r: &mut Rng, prop: &str, w: &[u32; 9]) -> Plan {
    let mut p = Plan::new(prop);
    let nt = r.int(2, 4) as usize;
    let gmain = r.pick(&[0, 0, 2]);
    let single = r.chance(1, 2);
    let mut regs: Vec<(usize, i64)> = vec![];
    let mut bursts = 0;
    let mut burst = None;
    for t in 0..nt {
        for _ in 0..r.int(2, 7) {
            let g = if single || r.chance(2, 3) { gmain } else { r.int(0, 2) };
            match r.weighted(w) as u16 {
                REG => {
                    let custom = r.chance(if prop == "C11" { 2 } else { 1 }, 4);
                    if custom {
                        p.push(t, REG, &[4, 1 << g, r.pick(&[0, 2, 3]), r.pick(&[0, 0, 1, 2, 3]) + 16 * r.int(0, 2)])
                    } else {
                        let m = if r.chance(1, 5) { 1 << g | 1 << r.int(0, 2) } else { 1 << g };
                        p.push(t, REG, &[r.int(0, 3), m, r.int(0, 3)])
                    }
                    let id = p.threads[t].last().unwrap().id as i64;
                    if !custom {
                        regs.push((t, id))
                    }
                }
                GATHER => {
                    let many = if r.chance(1, 60) && !p.threads.iter().flatten().any(|o| o.k == GATHER && o.a[2] > 0) { if bursts > 0 { 9 } else { r.pick(&[9, 9, 9, 40, 40, 40, 40, 110, 110, 110, 110, 110, 110, 260, 260, 260, 1030]) } } else { 0 };
                    p.push(t, GATHER, &[g, r.chance(1, 3) as i64, many])
                }
                DROP => {
                    if burst.map_or(false, |b: (usize, i64)| b.0 == t) {
                        // by the same thread: all of them are there
                        p.push(t, DROP, &[burst.take().unwrap().1])
                    } else if !regs.is_empty() {
                        let x = if r.chance(3, 4) { regs.iter().rev().find(|x| x.0 == t).cloned().unwrap_or(regs[0]) } else { regs[r.us(regs.len())] };
                        p.push(t, DROP, &[x.1])
                    }
                }
                FAIL => p.push(t, FAIL, &[r.int(0, 19), g]),
                BURST => {
                    bursts += 1;
                    if bursts < 2 {
                        let drop = r.chance(1, 2);
                        p.push(t, BURST, &[if r.chance(1, 40) && !p.threads.iter().flatten().any(|o| o.k == GATHER && o.a[2] > 9) { r.pick(&[70, 130, 300, 520, 1030]) } else { r.pick(&[5, 33, 40]) }, g]);
                        if drop {
                            burst = Some((t, p.threads[t].last().unwrap().id as i64))
                        }
                    }
                }
                REGIN => p.push(t, REGIN, &[r.int(1, 2), g, if r.chance(1, 2) { g } else { r.int(0, 2) }]),
                k => p.push(t, k, &[]),
            }
        }
    }
    p
}

pub fn cfg(_r: &mut Rng, p: &Plan, c: &mut rt::Config) {
    let n: i64 = p.threads.iter().flatten().filter(|o| o.k == BURST).map(|o| o.a[0]).sum();
    let g: i64 = p.threads.iter().flatten().filter(|o| o.k == GATHER).map(|o| o.a[2]).sum();
    c.cap2 += 40_000 * n as u32 + g as u32 * (2_000 + 500 * n as u32);
}

/// Many registrations before the first gather, and again after it.
pub fn crowd() -> Plan {
    let mut p = Plan::new("C10");
    p.set("huge", 1);
    p.push(0, BURST, &[9000, 0]);
    p.push(0, GATHER, &[0, 0]);
    p.push(0, BURST, &[57000, 0]);
    p
}
/// Many metrics, between them collectors that end in one of the gathers; then most of them are dropped.
pub fn crowd_ends() -> Plan {
    let mut p = Plan::new("C11");
    p.set("huge", 1);
    let mut first = 0;
    for _ in 0..8 {
        for end in [1, 2, 3, 0] {
            p.push(0, REG, &[4, 1, 0, end | 1 << 4]);
        }
        p.push(0, BURST, &[1100, 0]);
        first = p.threads[0].last().unwrap().id as i64;
        p.push(0, REG, &[0, 1, 0]);
    }
    p.push(0, GATHER, &[0, 0, 0]);
    p.push(0, DROP, &[first]);
    p.push(0, GATHER, &[0, 0, 0]);
    p.push(0, GATHER, &[0, 0, 0]);
    p
}

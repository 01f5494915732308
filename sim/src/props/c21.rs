//! C21: every text exposition is well formed and faithful.
use crate::common::*;
use crate::driver::Prop;
use crate::plan::*;
use crate::props::c14::H;
use crate::rt::{self, sut, Config};
use crate::{expo, fail};
use prometrics::metric::MetricKind;
use prometrics::metrics::*;
use std::sync::{Arc, Mutex};
use std::time::{Duration, UNIX_EPOCH};

const UPD: u16 = 0; // metric, value
const INS: u16 = 1; // metric, name, value
const REM: u16 = 2; // metric, name
const CLR: u16 = 3; // metric
const TS: u16 = 4; // metric, how, value
const NEW: u16 = 5; // family, help, first label value
const DROP: u16 = 6; // metric
const GATHER: u16 = 7; // how
const SHOW: u16 = 8; // metric

const KINDS: [MetricKind; 4] = [MetricKind::Counter, MetricKind::Gauge, MetricKind::Histogram, MetricKind::Summary];
/// namespace, subsystem, name; family i has kind i % 4.  No family's samples can be taken for another's.
const FAMS: [(&str, &str, &str); 8] = [
    ("", "", "requests_total"),
    ("", "", "g"),
    ("app", "", "latency"),
    ("app", "db", "size:x"),
    (":a", "", "B9_"),
    ("_", "_", "_"),
    ("", "sub", "h1"),
    ("N", "", "window"),
];
fn fname(f: usize) -> String {
    let (a, b, c) = FAMS[f];
    [a, b, c].iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join("_")
}
const TEXTS: [&str; 30] = [
    "plain", "", " ", "\\", "\"", "\n", "\\n", "\\\\", "trailing\\", "a\"b\"", "x\ny\n", "\\\"", "\"\\n\"", "a=\"b\",c=\"d\"", "{}", "}", ",", "# HELP g no",
    "\t", "\r\n", "\0", "é", "日本語", "\u{2028}\u{85}", "😀\\😀", "%s {} \u{1b}[0m", "  two  blanks ", "1 2 3", "\u{feff}", "long long long long long long long long long long long long \\ \" \n long long long long long",
];
/// texts 30 and up are long
const LONG: [usize; 4] = [300, 3000, 9000, 18000];
fn text(i: i64) -> &'static str {
    static L: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    if i < 30 {
        return TEXTS[i as usize];
    }
    let l = L.get_or_init(|| LONG.iter().map(|n| (0..).flat_map(|i| format!("{} \\ \" \n", i).into_bytes()).take(*n).map(|b| b as char).collect()).collect());
    &l[i as usize - 30]
}
const LN: [&str; 9] = ["a", "b", "Z9", "_", "le_", "a_b", "le", "quantile", "A"];
/// A label name; the one that the kind of the family reserves is replaced.
fn ln(i: i64, fam: i64) -> &'static str {
    match (LN[i as usize], fam % 4) {
        ("le", 2) | ("quantile", 3) => "a",
        (n, _) => n,
    }
}
const VALS: [f64; 20] = [
    0.0, 1.0, 0.5, 2.0, 1e-9, 1e21, 1e-320, 0.1, 123456789.123, 9007199254740993.0, f64::MAX, f64::MIN_POSITIVE, -1.0, -0.0, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 3.0, 1e16,
];

fn gen(r: &mut Rng, _i: u64) -> Plan {
    let mut p = Plan::new("C21");
    let few = r.chance(1, 2);
    let nf = if few { r.int(1, 2) } else { 8 };
    let f0 = r.int(0, 7);
    let nt = r.int(1, 3) as usize;
    let long = r.chance(1, 80);
    let t = |r: &mut Rng| if long && r.chance(1, 3) { r.int(30, 33) } else if r.chance(1, 3) { r.int(0, 4) } else { r.int(0, 29) };
    // how the metric is built: by its own builder, or by one of those that a MetricBuilder makes
    let via = |r: &mut Rng| if r.chance(1, 2) { 0 } else { r.int(1, 4) };
    for _ in 0..r.int(1, 4) {
        let a = [(f0 + r.int(0, nf - 1)) % 8 | via(r) << 8, t(r) - r.chance(1, 4) as i64 * 100, if r.chance(1, 2) { t(r) } else { -1 }, r.int(0, nt as i64 - 1)];
        p.obj(0, &a);
    }
    if long {
        p.set("long", 1);
        p.set("many", r.pick(&[0, 0, 40, 200]));
    }
    for th in 0..nt {
        // metrics this thread owns: setup ones and those it creates
        let mut own: Vec<i64> = p.objs.iter().filter(|o| o.a[3] as usize == th).map(|o| o.id as i64).collect();
        let all: Vec<i64> = p.objs.iter().map(|o| o.id as i64).collect();
        for _ in 0..r.int(2, 9) {
            let k = r.weighted(&[6, 6, 2, 1, 2, 2, 1, 6, 2]) as u16;
            match k {
                UPD | SHOW => {
                    let m = if own.is_empty() || r.chance(1, 2) { all[r.us(all.len())] } else { own[r.us(own.len())] };
                    p.push(th, k, &[m, r.int(0, 19)])
                }
                NEW => {
                    let a = [(f0 + r.int(0, nf - 1)) % 8 | via(r) << 8, t(r) - r.chance(1, 4) as i64 * 100, if r.chance(1, 2) { t(r) } else { -1 }, th as i64];
                    p.push(th, NEW, &a);
                    own.push(p.threads[th].last().unwrap().id as i64)
                }
                GATHER => p.push(th, k, &[r.int(0, 2)]),
                _ if !own.is_empty() => {
                    let m = own[r.us(own.len())];
                    match k {
                        INS => {
                            let v = t(r);
                            p.push(th, k, &[m, r.int(0, 8), v])
                        }
                        REM => p.push(th, k, &[m, r.int(0, 8)]),
                        TS => p.push(th, k, &[m, r.int(0, 3), r.pick(&[0, 1, -1, 1500000000123, i64::MAX, i64::MIN + 1])]),
                        _ => p.push(th, k, &[m]),
                    }
                }
                _ => {}
            }
        }
    }
    p
}

type L = Vec<(String, String)>;
struct Item {
    op: i64,
    fam: usize,
    help: Option<&'static str>,
    /// registration began
    born: u64,
    handle: Option<Arc<H>>,
    /// label versions: the change to them took place in [inv, ret]
    vers: Vec<(u64, u64, L)>,
}
struct W {
    items: Mutex<Vec<Item>>,
}
fn help_of(h: i64) -> Option<&'static str> {
    if h < 0 {
        None
    } else {
        Some(text(h))
    }
}
fn build(fam: usize, via: i64, help: Option<&str>, label: i64, reg: prometrics::Registry) -> H {
    build_with(fam, via, help, if label >= 0 { Some(text(label)) } else { None }, reg)
}
fn build_with(fam: usize, via: i64, help: Option<&str>, label: Option<&str>, reg: prometrics::Registry) -> H {
    let (ns, ss, n) = FAMS[fam];
    let mut mb = match via {
        0 | 1 => MetricBuilder::without_registry(),
        2 | 4 => MetricBuilder::with_registry(reg.clone()),
        _ => MetricBuilder::default(), // the default registry, replaced below
    };
    if via > 0 {
        // some settings are inherited, some of those replaced later
        if !ns.is_empty() {
            mb.namespace(if via == 4 { "other" } else { ns });
        }
        if !ss.is_empty() {
            mb.subsystem(if via == 4 { "other" } else { ss });
        }
        match label {
            Some(l) if via < 4 => mb.label("a", "other").label("a", l),
            Some(_) => mb.label("a", "other"),
            None => &mut mb,
        };
        match via {
            1 => mb.registry(reg.clone()),
            2 => &mut mb,
            _ => mb.set_registry(reg.clone()),
        };
    }
    let own = via == 0 || via == 4;
    macro_rules! mk {
        ($b:expr) => {{
            let mut b = $b;
            if own && !ns.is_empty() {
                b.namespace(ns);
            }
            if own && !ss.is_empty() {
                b.subsystem(ss);
            }
            if let Some(h) = help {
                b.help(h);
            }
            if let (Some(l), true) = (label, own) {
                b.label("a", l);
            }
            if via == 0 {
                b.registry(reg);
            }
            b.finish().unwrap()
        }};
    }
    match fam % 4 {
        0 => H::C(mk!(if via == 0 { CounterBuilder::new(n) } else { mb.counter(n) })),
        1 => H::G(mk!(if via == 0 { GaugeBuilder::new(n) } else { mb.gauge(n) })),
        2 => H::H(mk!({
            let mut b = if via == 0 { HistogramBuilder::new(n) } else { mb.histogram(n) };
            for x in &[-1.5, 0.0, 1e-9, 0.1 + 0.2, 1.0, 1e21] {
                b.bucket(*x);
            }
            b
        })),
        _ => H::S(mk!({
            let w = Duration::from_secs(3600);
            let mut b = if via == 0 { SummaryBuilder::new(n, w) } else { mb.summary(n, w) };
            for x in &[0.0, 0.1, 0.5, 1.0 / 3.0, 1.0] {
                b.quantile(*x);
            }
            b
        })),
    }
}

fn exec(p: &'static Plan) {
    let g = gatherer();
    let w: &'static W = leak(W { items: Mutex::new(vec![]) });
    // every thread keeps its own registry handle
    let regs: &'static Vec<prometrics::Registry> = leak((0..9).map(|_| registry(g)).collect());
    let create = move |o: &Op| {
        let fam = (o.a[0] & 255) as usize;
        let help = help_of(o.a[1]);
        let l: L = if o.a[2] >= 0 { vec![("a".into(), text(o.a[2]).into())] } else { vec![] };
        let i = {
            let mut v = w.items.lock().unwrap();
            let s = rt::seq();
            v.push(Item { op: o.id as i64, fam, help, born: s, handle: None, vers: vec![(s, s, l)] });
            v.len() - 1
        };
        let h = Arc::new(sut(|| build(fam, o.a[0] >> 8, help, o.a[2], regs[rt::tid()].clone())));
        w.items.lock().unwrap()[i].handle = Some(h);
    };
    for o in &p.objs {
        create(o);
    }
    // more series in the family of the first metric
    for i in 0..p.p("many") {
        let fam = (p.objs[0].a[0] & 255) as usize;
        let v: &'static str = Box::leak(format!("n{}", i).into_boxed_str());
        let s = rt::seq();
        let h = sut(|| build_with(fam, i % 5, None, Some(v), regs[rt::tid()].clone()));
        w.items.lock().unwrap().push(Item { op: -1 - i, fam, help: None, born: s, handle: Some(Arc::new(h)), vers: vec![(s, s, vec![("a".into(), v.into())])] });
    }
    let find = move |id: i64| -> Option<(usize, Arc<H>)> {
        let v = w.items.lock().unwrap();
        v.iter().enumerate().find(|x| x.1.op == id).and_then(|x| x.1.handle.clone().map(|h| (x.0, h)))
    };
    run_plan(p, move |_t, o| match o.k {
        NEW => create(o),
        GATHER => {
            let inv = rt::seq();
            let f = gather(g);
            let ret = rt::seq();
            let t = match o.a[0] {
                0 => sut(|| f.to_text()),
                1 => {
                    rt::yield_now();
                    let c = sut(|| f.clone());
                    sut(|| drop(f));
                    sut(|| c.to_text())
                }
                // family by family
                _ => f.into_vec().into_iter().map(|f| sut(|| f.to_string())).collect(),
            };
            check_text(w, &t, inv, ret, o.id as i32);
        }
        _ => {
            let (i, h) = match find(o.a[0]) {
                Some(x) => x,
                None => return,
            };
            match o.k {
                UPD => {
                    let v = VALS[o.a[1] as usize];
                    sut(|| match &*h {
                        H::C(c) => {
                            if v >= 0.0 && v < 1e18 {
                                c.add(v).unwrap()
                            }
                        }
                        H::G(x) => x.set(v),
                        H::H(x) => {
                            if !v.is_nan() {
                                x.observe(v)
                            }
                        }
                        H::S(x) => x.observe(v),
                    })
                }
                TS => {
                    macro_rules! go {
                        ($m:expr) => {
                            match o.a[1] {
                                0 => $m.timestamp_mut().set(o.a[2]),
                                1 => $m.timestamp_mut().clear(),
                                2 => $m.timestamp_mut().set_now(),
                                _ => $m.timestamp_mut().set_time(UNIX_EPOCH + Duration::from_millis(o.a[2] as u64 % 4000000000000)),
                            }
                        };
                    }
                    sut(|| match &*h {
                        H::C(m) => go!(m),
                        H::G(m) => go!(m),
                        H::H(m) => go!(m),
                        H::S(m) => go!(m),
                    })
                }
                SHOW => {
                    let inv = rt::seq();
                    let t = sut(|| match &*h {
                        H::C(m) => m.to_string(),
                        H::G(m) => m.to_string(),
                        H::H(m) => m.to_string(),
                        H::S(m) => m.to_string(),
                    });
                    let ret = rt::seq();
                    check_show(w, i, &t, inv, ret, o.id as i32)
                }
                DROP => {
                    let own = w.items.lock().unwrap()[i].handle.take();
                    sut(|| drop(own));
                }
                _ => {
                    let n = ln(o.a[1], w.items.lock().unwrap()[i].fam as i64);
                    let v = if o.k == INS { text(o.a[2]) } else { "" };
                    let k = {
                        let mut v2 = w.items.lock().unwrap();
                        let it = &mut v2[i];
                        let mut l = it.vers.last().unwrap().2.clone();
                        if o.k == CLR {
                            l.clear()
                        } else {
                            l.retain(|x| x.0 != n);
                        }
                        if o.k == INS {
                            l.push((n.into(), v.into()));
                            l.sort();
                        }
                        it.vers.push((rt::seq(), u64::MAX, l));
                        it.vers.len() - 1
                    };
                    let mut c = sut(|| (*h).clone());
                    sut(|| {
                        let mut l = c.labels_mut();
                        match o.k {
                            INS => l.insert(n, v).unwrap(),
                            REM => l.remove(n),
                            _ => l.clear(),
                        }
                    });
                    w.items.lock().unwrap()[i].vers[k].1 = rt::seq();
                    sut(|| drop(c));
                }
            }
            sut(|| drop(h));
        }
    });
    // at rest, text and accessors agree completely
    rt::set_faults(false);
    let inv = rt::seq();
    let f = gather(g);
    let ret = rt::seq();
    let t = sut(|| f.to_text());
    let b = views(&f);
    let a = check_text(w, &t, inv, ret, OP_FINAL);
    if a.len() != b.len() {
        fail!("text-unfaithful", "the text has {} families, the gather {}", a.len(), b.len())
    }
    for (x, y) in a.iter().zip(&b) {
        if x.name != y.name || x.kind != y.kind || x.help != y.help || x.series.len() != y.series.len() {
            fail!("text-unfaithful", "family {:?} {} {:?} of {} series is rendered as {:?} {} {:?} of {} series", y.name, y.kind, y.help, y.series.len(), x.name, x.kind, x.help, x.series.len())
        }
        for (s, u) in x.series.iter().zip(&y.series) {
            if s.labels != u.labels || s.ts != u.ts || !same_val(&s.val, &u.val) {
                fail!("text-unfaithful", "series {:?} {:?} {:?} of {} is rendered as {:?} {:?} {:?}", u.labels, u.ts, u.val, y.name, s.labels, s.ts, s.val)
            }
        }
    }
    // ... and every held metric is in it with its labels
    let v = w.items.lock().unwrap();
    for it in v.iter().filter(|i| i.handle.is_some()) {
        let l = &it.vers.last().unwrap().2;
        if !a.iter().any(|x| x.name == fname(it.fam) && x.series.iter().any(|s| s.labels == *l)) {
            fail!("series-missing", "the metric of op {} ({} {:?}) is not in the text", it.op, fname(it.fam), l)
        }
    }
}
fn same_val(a: &Val, b: &Val) -> bool {
    let pairs = |a: &Vec<(f64, f64)>, b: &Vec<(f64, f64)>| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_f64(x.0, y.0) && same_f64(x.1, y.1));
    match (a, b) {
        (Val::Num(a), Val::Num(b)) => same_f64(*a, *b),
        (Val::Hist { buckets: a, count: c, sum: s }, Val::Hist { buckets: b, count: d, sum: t }) => a == b && c == d && same_f64(*s, *t),
        (Val::Summ { q: a, count: c, sum: s }, Val::Summ { q: b, count: d, sum: t }) => pairs(a, b) && c == d && same_f64(*s, *t),
        _ => false,
    }
}
/// Could the metric have had these labels at some moment of [inv, ret]?
fn could(it: &Item, l: &L, inv: u64, ret: u64) -> bool {
    it.vers.iter().enumerate().any(|(k, v)| v.2 == *l && v.0 < ret && it.vers.get(k + 1).map_or(true, |n| n.1 > inv))
}
fn check_text(w: &W, t: &str, inv: u64, ret: u64, op: i32) -> Vec<Fam> {
    let fams = match expo::parse(t, false) {
        Ok(f) => f,
        Err(m) => fail!("text-malformed", "op {}: {}\n{}", op, m, t),
    };
    let v = w.items.lock().unwrap();
    for f in &fams {
        let mem: Vec<&Item> = v.iter().filter(|i| fname(i.fam) == f.name && KINDS[i.fam % 4] == f.kind && i.born < ret).collect();
        if mem.is_empty() {
            fail!("family-invented", "op {}: {} {} has no registered metric\n{}", op, f.kind, f.name, t)
        }
        if !mem.iter().any(|i| i.help.map(|h| h.to_string()) == f.help) {
            fail!("help-altered", "op {}: {} has help {:?}, its metrics have {:?}\n{}", op, f.name, f.help, mem.iter().map(|i| i.help).collect::<Vec<_>>(), t)
        }
        for s in &f.series {
            if !mem.iter().any(|i| could(i, &s.labels, inv, ret)) {
                fail!("labels-altered", "op {}: {} is exposed with {:?}, which none of its metrics had\n{}", op, f.name, s.labels, t)
            }
            if let (Val::Num(x), 1) = (&s.val, f.name.len()) {
                // the gauge "g": single values ever set (sums when several are merged)
                if mem.len() == 1 && !VALS.iter().any(|y| same_f64(*x, *y)) {
                    fail!("value-altered", "op {}: {} has value {:e}\n{}", op, f.name, x, t)
                }
            }
        }
    }
    fams
}
fn check_show(w: &W, i: usize, t: &str, inv: u64, ret: u64, op: i32) {
    let v = w.items.lock().unwrap();
    let it = &v[i];
    let name = fname(it.fam);
    for l in t.split('\n') {
        let s = match expo::sample(l) {
            Ok(s) => s,
            Err(m) => fail!("text-malformed", "op {}: {}\n{}", op, m, t),
        };
        let mut labels = s.labels.clone();
        if let Some(r) = ["", "", "le", "quantile"].get(it.fam % 4) {
            labels.retain(|x| x.0 != *r);
        }
        let part = s.name.strip_prefix(&name[..]).unwrap_or("?");
        if ![&[""][..], &[""], &["_bucket", "_sum", "_count"], &["", "_sum", "_count"]][it.fam % 4].contains(&part) {
            fail!("text-malformed", "op {}: line {:?} in the text of {} {}", op, l, KINDS[it.fam % 4], name)
        }
        if !could(it, &labels, inv, ret) {
            fail!("labels-altered", "op {}: {} is shown with {:?}, which it never had\n{}", op, name, s.labels, t)
        }
    }
}

fn short(t: &str) -> String {
    if t.len() < 120 {
        t.into()
    } else {
        format!("a text of {} characters", t.chars().count())
    }
}
fn describe(o: &Op, setup: bool) -> String {
    if setup || o.k == NEW {
        return format!(
            "{} {} (m{}, {}) with help {:?}{}",
            KINDS[(o.a[0] & 3) as usize],
            fname((o.a[0] & 255) as usize),
            o.id,
            if o.a[0] >> 8 == 0 { "its own builder".to_string() } else { format!("a MetricBuilder, way {}", o.a[0] >> 8) },
            help_of(o.a[1]).map(short),
            if o.a[2] < 0 { String::new() } else { format!(" and a={:?}", short(text(o.a[2]))) }
        );
    }
    match o.k {
        UPD => format!("update m{} with {:e}", o.a[0], VALS[o.a[1] as usize]),
        INS => format!("insert {}={:?} into m{}", LN[o.a[1] as usize], short(text(o.a[2])), o.a[0]),
        REM => format!("remove {} from m{}", LN[o.a[1] as usize], o.a[0]),
        CLR => format!("clear the labels of m{}", o.a[0]),
        TS => format!("timestamp of m{}: {} {}", o.a[0], ["set", "clear", "set_now", "set_time"][o.a[1] as usize], o.a[2]),
        DROP => format!("drop m{}", o.a[0]),
        SHOW => format!("m{}.to_string()", o.a[0]),
        _ => format!("gather and render ({})", ["to_text", "clone, to_text", "family by family"][o.a[0] as usize]),
    }
}
fn cfg(r: &mut Rng, p: &Plan, c: &mut Config) {
    if p.p("long") > 0 {
        c.cap1 = 1_000_000;
        c.cap2 = if p.p("many") > 0 { 200_000_000 } else { 10_000_000 };
    }
    if r.chance(1, 3) {
        time_cfg(r, c, &[1, 1_000_000, 1_000_000_000, 3600_000_000_000], &[-1_000_000_000, 1_000_000_000, -1_000_000_000_000_000_000]);
    }
}

/// One family of very many series.
fn many() -> Plan {
    let mut r = Rng(1);
    r.next();
    let mut p = gen(&mut r, 0);
    p.set("long", 1);
    p.set("huge", 1);
    p.set("many", 1500);
    p
}

pub const PROP: Prop = Prop {
    id: "C21",
    gen,
    cfg,
    exec,
    describe,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a case is one simulated run: 1-3 threads create, update, relabel, timestamp, drop and render metrics of all kinds; every text is decoded by an independent parser and compared with what the metrics had; non-trivial: a preemption inside a call occurred and the execution hash is new",
    probes: &[],
    real: "all of prometrics, atomic_immut, its other dependencies and std, compiled from source and instrumented",
    directed: &[("many", many)],
    stub: "thread scheduler, futex, clocks, heap",
};
